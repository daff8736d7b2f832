from matplotlib.pyplot import savefig
