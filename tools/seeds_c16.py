NW = "yaocptool/modelling/network/network.py"
HEAD = '''
import casadi as ca
from casadi import SX, DM, vertcat
import logging
logging.disable(logging.CRITICAL)
from yaocptool.modelling import Network, Node, OptimalControlProblem, SystemModel


def part(name, a, n_u=2, n_y=1):
    m = SystemModel(name=name)
    x, u, y = m.create_state("x_" + name), m.create_control("u_" + name, n_u), m.create_algebraic_variable("y_" + name, n_y)
    m.include_equations(ode=-a * x + ca.sum1(u), alg=y - vertcat(*[(i + 2) * x for i in range(n_y)]))
    o = OptimalControlProblem(m, x_0=DM([1.0]), t_0=0.0, t_f=1.0, name="p_" + name)
    o.L = a * x ** 2
    o.u_max = DM([a + i for i in range(n_u)])
    return o, m, x, u, y


names = lambda v: [q.name() for q in v.nz]
'''
SEEDS = {
    "s16_order_of_creation": dict(
        property="C16", needs="nodes given ids against the order of their creation",
        breaks="the problems of the nodes are merged in the order of creation, not of the ids",
        edits=[(NW, "        return [node.problem for node in sorted(self.nodes, key=lambda x: x.node_id)]\n", "        return [node.problem for node in self.nodes]\n")],
        demo=HEAD + '''
A, B = part("a", 1), part("b", 2)
net = Network(name="net")
net.create_node(name="A", problem=A[0], node_id=5)
net.create_node(name="B", problem=B[0], node_id=2)
p = net.get_problem()
assert names(p.model.x) == ["x_b", "x_a"], p.model.x
'''),
    "s16_second_connection_replaces": dict(
        property="C16", needs="two connections made one after the other between the same nodes in the same direction",
        breaks="the second one puts its inputs before those of the first while the outputs stay in order",
        edits=[(NW, '''        self.graph.edges[node1, node2]["u"] = vertcat(
            self.graph.edges[node1, node2]["u"], u
        )
''', '''        self.graph.edges[node1, node2]["u"] = vertcat(
            u, self.graph.edges[node1, node2]["u"]
        )
''')],
        demo=HEAD + '''
A, B = part("a", 1, n_y=2), part("b", 2)
net = Network(name="net")
a, b = net.create_node(name="A", problem=A[0]), net.create_node(name="B", problem=B[0])
net.connect(A[4][0], B[3][0], a, b)
net.connect(A[4][1], B[3][1], a, b)
m = net.get_model()
f = ca.Function("f", [m.x, m.y, m.u], [m.alg])
J, r = ca.Function("J", [m.x, m.y, m.u], [ca.jacobian(m.alg, m.y), m.alg])(DM([1, 0]), DM.zeros(m.y.numel()), DM.zeros(m.u.numel()))
y = dict(zip(names(m.y), (-ca.solve(J, r)).nz))
u = [y[q.name()] for q in B[3].nz]
assert abs(u[0] - 2) < 1e-9 and abs(u[1] - 3) < 1e-9, u
'''),
    "s16_node_two_not_asked": dict(
        property="C16", needs="an input that belongs to the first node instead of the second",
        breaks="the owner of the input is not checked against the second node",
        edits=[(NW, "        if not node2.model.has_variable(u):\n", "        if not node1.model.has_variable(u) and not node2.model.has_variable(u):\n")],
        demo=HEAD + '''
A, B = part("a", 1), part("b", 2)
net = Network(name="net")
a, b = net.create_node(name="A", problem=A[0]), net.create_node(name="B", problem=B[0])
try:
    net.connect(A[4], A[3][0], a, b)
except ValueError:
    pass
else:
    raise SystemExit("a connection to an input of another node was accepted")
'''),
    "s16_intermediary_swapped": dict(
        property="C16", needs="intermediary nodes between nodes with two variables connected",
        breaks="the intermediary node passes the variables on in reverse",
        edits=[(NW, "        new_model.include_equations(alg=[dummy_u - dummy_y])\n", "        new_model.include_equations(alg=[dummy_u - vertcat(*reversed(dummy_y.nz))])\n")],
        demo=HEAD + '''
A, B = part("a", 1, n_y=2), part("b", 2)
net = Network(name="net")
a, b = net.create_node(name="A", problem=A[0]), net.create_node(name="B", problem=B[0])
net.connect(A[4], B[3], a, b)
net.insert_intermediary_nodes()
m = net.get_model()
J, r = ca.Function("J", [m.x, m.y, m.u], [ca.jacobian(m.alg, m.y), m.alg])(DM([1, 0]), DM.zeros(m.y.numel()), DM.zeros(m.u.numel()))
y = dict(zip(names(m.y), (-ca.solve(J, r)).nz))
u = [y[q.name()] for q in B[3].nz]
assert abs(u[0] - 2) < 1e-9 and abs(u[1] - 3) < 1e-9, u
'''),
    "s16_initial_condition_time": dict(
        property="C16", needs="initial conditions asked for at a time that is not the final time of the problems",
        breaks="the simulation runs to the final time of the problem",
        edits=[(NW, "problem.simulate(t_f=t_f).final_condition()", "problem.simulate(t_f=max(t_f, problem.t_f)).final_condition()")],
        demo=HEAD + '''
A, B = part("a", 1), part("b", 2)
net = Network(name="net")
a, b = net.create_node(name="A", problem=A[0]), net.create_node(name="B", problem=B[0])
net.connect(A[4], B[3][1], a, b)
d = net.get_initial_condition(0.5)
assert abs(float(d["A"]["x"][0]) - float(ca.exp(-0.5))) < 1e-4, d
'''),
}
