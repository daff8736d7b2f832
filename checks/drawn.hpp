// What reached matplotlib: the calls recorded by shadow/py/matplotlib/pyplot.py, which stands in for it
#ifndef DRAWN_HPP
#define DRAWN_HPP
#include "DynamicObstacleAvoidance/Utils/Plotting/matplotlibcpp.hpp"
#include <Python.h>
#include <numpy/arrayobject.h>
#include <string>
#include <vector>
int verif_import_array() { return _import_array(); }
namespace rec {
struct Call { std::string what; std::vector<double> x, y; std::string s; std::vector<long> n; };
inline PyObject* list()
{
	// the front end starts the interpreter
	static PyObject* l = nullptr;
	if(!l)
	{
		matplotlibcpp::ion();
		PyObject* m = PyImport_ImportModule("matplotlib.pyplot");
		l = m ? PyObject_GetAttrString(m, "calls") : nullptr;
		if(!l) { PyErr_Print(); throw std::runtime_error("no recording of the drawing"); }
	}
	return l;
}
inline void clear() { PyList_SetSlice(list(), 0, PyList_Size(list()), nullptr); }
inline std::vector<double> doubles(PyObject* b)
{
	const double* p = reinterpret_cast<const double*>(PyBytes_AsString(b));
	std::vector<double> v(size_t(PyBytes_Size(b)) / sizeof(double));
	if(!v.empty()) memcpy(v.data(), p, v.size() * sizeof(double));
	return v;
}
inline std::vector<Call> calls()
{
	std::vector<Call> r;
	PyObject* l = list();
	for(Py_ssize_t i = 0; i < PyList_Size(l); ++i)
	{
		PyObject* t = PyList_GetItem(l, i);
		Call c;
		c.what = PyUnicode_AsUTF8(PyTuple_GetItem(t, 0));
		c.x = doubles(PyTuple_GetItem(t, 1));
		c.y = doubles(PyTuple_GetItem(t, 2));
		const char* s = PyUnicode_AsUTF8(PyTuple_GetItem(t, 3));
		c.s = s ? s : "";
		PyObject* n = PyTuple_GetItem(t, 4);
		for(Py_ssize_t k = 0; k < PyTuple_Size(n); ++k) c.n.push_back(PyLong_AsLong(PyTuple_GetItem(n, k)));
		r.push_back(c);
	}
	return r;
}
}
#endif
