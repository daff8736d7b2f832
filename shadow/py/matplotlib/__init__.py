# Stand-in for matplotlib at the Python end: records what reaches it. The C++ front end of the repository is used as it is.
def use(*a, **k):
    pass
