"""Stand-in for the assimulo package (not installable in this sandbox).

Only the surface that src/sloth/solvers.py uses.  The solvers are real
integrators (Radau IIA collocation, order 5), so a simulation driven through
them produces a solution of the residual / right hand side the code under test
handed over: what is judged is that hand-over (argument order, initial values,
algebraic flags, output times), not assimulo's own numerics.
"""
