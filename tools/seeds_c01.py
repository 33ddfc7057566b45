A = "yaocptool/optimization/abstract_optimization_problem.py"
SEEDS = {
    "s01_rhs_may_depend_on_parameter": dict(
        property="C01", needs="an equality whose right hand side contains a parameter of the problem",
        breaks="the right hand side of an equality may contain the problem's own parameters, so the stored bounds are not numbers",
        edits=[(A, "if depends_on(rhs, vertcat(self.x, self.p)):", "if depends_on(rhs, self.x):")],
        demo='''
from casadi import MX
from yaocptool.optimization.nonlinear_problem import NonlinearOptimizationProblem
pr = NonlinearOptimizationProblem()
x = pr.create_variable("x", 2); p = pr.create_parameter("p", 2)
try:
    pr.include_equality(x, p)
except ValueError:
    raise SystemExit(0)
raise SystemExit("accepted a right hand side that depends on the parameter")
'''),
    "s01_inequality_partial_update": dict(
        property="C01", needs="an inequality that is rejected because one lower bound exceeds its upper bound, and the problem used afterwards",
        breaks="a rejected inequality leaves its expression in the problem without bounds",
        edits=[(A, '''        for i in range(expr.numel()):
            if lb.is_constant()''', '''        self.g = vertcat(self.g, expr)
        for i in range(expr.numel()):
            if lb.is_constant()'''),
               (A, '''        self.g = vertcat(self.g, expr)
        self.g_lb = vertcat(self.g_lb, lb)''', '''        self.g_lb = vertcat(self.g_lb, lb)''')],
        demo='''
from casadi import MX, DM
from yaocptool.optimization.nonlinear_problem import NonlinearOptimizationProblem
pr = NonlinearOptimizationProblem()
x = pr.create_variable("x", 2)
try:
    pr.include_inequality(x, lb=DM([0, 2]), ub=DM([1, 1]))
except ValueError:
    pass
assert pr.g.numel() == pr.g_lb.numel() == pr.g_ub.numel(), (pr.g.numel(), pr.g_lb.numel())
'''),
    "s01_bound_check_first_only": dict(
        property="C01", needs="a vector inequality whose infeasible pair is not the first one",
        breaks="an infeasible bound pair is only rejected in some positions",
        edits=[(A, '''        for i in range(expr.numel()):
            if lb.is_constant() and ub.is_constant() and lb[i] > ub[i]:''',
                '''        for i in range(min(expr.numel(), 2)):
            if lb.is_constant() and ub.is_constant() and lb[i] > ub[i]:''')],
        demo='''
from casadi import DM
from yaocptool.optimization.nonlinear_problem import NonlinearOptimizationProblem
pr = NonlinearOptimizationProblem()
x = pr.create_variable("x", 3)
try:
    pr.include_inequality(x, lb=DM([0, 0, 2]), ub=DM([1, 1, 1]))
except ValueError:
    raise SystemExit(0)
raise SystemExit("infeasible bounds accepted")
'''),
    "s01_equality_scalar_rhs": dict(
        property="C01", needs="a vector equality with a scalar right hand side of a negative value",
        breaks="a negative scalar right hand side of a vector equality is stored with the wrong sign in the lower bound",
        edits=[(A, '''            if rhs.numel() == 1 and expr.numel() > 1:
                rhs = repmat(rhs, expr.numel())
''', '''            if rhs.numel() == 1 and expr.numel() > 1:
                rhs = repmat(abs(rhs), expr.numel())
''')],
        demo='''
from casadi import DM
from yaocptool.optimization.nonlinear_problem import NonlinearOptimizationProblem
pr = NonlinearOptimizationProblem()
x = pr.create_variable("x", 3)
pr.include_equality(x, -2.0)
assert pr.g_lb.full().ravel().tolist() == [-2.0] * 3, pr.g_lb
'''),
}
