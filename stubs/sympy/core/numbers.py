from sympy import Float, Integer, Number, One
