"""A stand-in for the part of gurobipy's documented interface that models of linear problems need; problems are solved with HiGHS (scipy).

Deliberately strict: what gurobipy does not document (plain booleans as constraints, unknown attributes and parameters, `<<`, values before a solution exists)
is refused here as well. Log output and parameters are recorded, so that a monitor can look at them."""
import numbers, time
import numpy as np
from scipy.optimize import milp as _milp, LinearConstraint as _LC, Bounds as _B

LAST = {}        # the parameters of the last solved model
FAILED = 0       # how often the solver underneath gave up (a monitor may want to know)


class GurobiError(Exception):
    pass


class GRB:
    MINIMIZE, MAXIMIZE = 1, -1
    CONTINUOUS, BINARY, INTEGER = "C", "B", "I"
    LESS_EQUAL, GREATER_EQUAL, EQUAL = "<", ">", "="
    INFINITY = 1e100
    LOADED, OPTIMAL, INFEASIBLE, INF_OR_UNBD, UNBOUNDED, CUTOFF, ITERATION_LIMIT, NODE_LIMIT, TIME_LIMIT, SOLUTION_LIMIT, INTERRUPTED, NUMERIC, SUBOPTIMAL = range(1, 14)


PARAMS = {p.lower() for p in ("OutputFlag", "LogToConsole", "MIPGap", "MIPGapAbs", "FeasibilityTol", "IntFeasTol", "OptimalityTol", "NumericFocus", "Threads", "TimeLimit", "Presolve",
                              "Method", "MIPFocus", "Seed", "DualReductions", "InfUnbdInfo", "WorkLimit", "NodeLimit", "SolutionLimit")}


def _num(x):
    return isinstance(x, numbers.Real) and not isinstance(x, bool) or isinstance(x, (np.floating, np.integer))


def _finite(x, what):
    if not _num(x) or x != x:
        raise GurobiError("%s is not a number: %r" % (what, x))
    return float(x)


class _Arith:
    __array_priority__ = 100.0
    __array_ufunc__ = None
    __hash__ = object.__hash__

    def __add__(self, o):
        return LinExpr(self)._add(o, 1)
    __radd__ = __add__

    def __sub__(self, o):
        return LinExpr(self)._add(o, -1)

    def __rsub__(self, o):
        return (LinExpr(self) * -1)._add(o, 1)

    def __mul__(self, k):
        if not _num(k):
            return NotImplemented
        k = _finite(k, "coefficient")
        e = LinExpr(self)
        e.terms = [(v, c * k) for v, c in e.terms]; e.constant *= k
        return e
    __rmul__ = __mul__

    def __neg__(self):
        return self * -1

    def __truediv__(self, k):
        return self * (1.0 / k)

    def __le__(self, o):
        return TempConstr(self, "<", o)

    def __ge__(self, o):
        return TempConstr(self, ">", o)

    def __eq__(self, o):
        return TempConstr(self, "=", o)

    def __bool__(self):
        raise GurobiError("expressions have no truth value")


class LinExpr(_Arith):
    def __init__(self, arg1=0.0, arg2=None):
        self.terms, self.constant = [], 0.0
        if arg2 is not None:
            if _num(arg1):
                arg1, arg2 = [arg1], [arg2]
            if len(arg1) != len(arg2):
                raise GurobiError("lists of different lengths")
            self.terms = [(v, _finite(c, "coefficient")) for c, v in zip(arg1, arg2)]
        elif isinstance(arg1, LinExpr):
            self.terms, self.constant = list(arg1.terms), arg1.constant
        elif isinstance(arg1, Var):
            self.terms = [(arg1, 1.0)]
        elif _num(arg1):
            self.constant = float(arg1)
        else:
            try:
                self.terms = [(v, _finite(c, "coefficient")) for c, v in arg1]
            except TypeError:
                raise GurobiError("unsupported argument for an expression: %r" % (arg1,))
        if not all(isinstance(v, Var) for v, _ in self.terms):
            raise GurobiError("unsupported argument for an expression")

    def _add(self, o, s):
        e = LinExpr(self)
        o = LinExpr(o)
        e.terms += [(v, s * c) for v, c in o.terms]; e.constant += s * o.constant
        return e

    def add(self, o, mult=1.0):
        o = LinExpr(o)
        self.terms += [(v, mult * c) for v, c in o.terms]; self.constant += mult * o.constant

    def addTerms(self, coeffs, variables):
        self.add(LinExpr(coeffs, variables))

    def addConstant(self, c):
        self.constant += c

    def size(self):
        return len(self.terms)

    def getVar(self, i):
        return self.terms[i][0]

    def getCoeff(self, i):
        return self.terms[i][1]

    def getConstant(self):
        return self.constant

    def _dense(self, n):
        a = np.zeros(n)
        for v, c in self.terms:
            a[v._index] += c
        return a


def quicksum(items):
    e = LinExpr()
    for x in items:
        e.add(x)
    return e


class TempConstr:
    def __init__(self, lhs, sense, rhs):
        e = LinExpr(lhs)._add(rhs, -1)
        self.expr, self.sense, self.rhs = LinExpr(e) - e.constant, sense, -e.constant
        self.then = None

    def __rshift__(self, o):
        if not isinstance(o, TempConstr) or len(self.expr.terms) != 1 or self.sense != "=" or self.expr.terms[0][1] != 1 or self.rhs not in (0, 1):
            raise GurobiError("indicator constraints have the form (binary variable == 0 or 1) >> (linear constraint)")
        t = TempConstr(LinExpr(), "=", 0)
        t.then = (self.expr.terms[0][0], int(self.rhs), o)
        return t

    def __bool__(self):
        raise GurobiError("Constraint has no bool value (are you trying \"lb <= expr <= ub\"?)")


class _Item:
    def __init__(self, model):
        object.__setattr__(self, "_model", model)

    _ATTRS = {}

    def __getattr__(self, name):
        a = self._ATTRS.get(name.lower())
        if name.startswith("_") or a is None:
            raise AttributeError("%r object has no attribute %r" % (type(self).__name__, name))
        return a(self)

    def getAttr(self, name):
        return getattr(self, name)


class Var(_Arith, _Item):
    def __init__(self, model, lb, ub, obj, vtype, name):
        _Item.__init__(self, model)
        object.__setattr__(self, "_d", {"lb": lb, "ub": ub, "obj": obj, "vtype": vtype, "varname": name})
        self.__dict__["_index"] = len(model._vars)
        self.__dict__["_gone"] = False

    def _x(self):
        if self._model._x is None:
            raise AttributeError("Unable to retrieve attribute 'x'")
        return float(self._model._x[self._index])

    _ATTRS = {"x": _x, "lb": lambda s: s._d["lb"], "ub": lambda s: s._d["ub"], "obj": lambda s: s._d["obj"], "vtype": lambda s: s._d["vtype"], "varname": lambda s: s._d["varname"],
              "index": lambda s: s._index}

    def __setattr__(self, name, value):
        n = name.lower()
        if n not in self._d:
            raise AttributeError("%r object has no attribute %r" % ("Var", name))
        self._d[n] = value
        self._model._reset()

    setAttr = __setattr__


class Constr(_Item):
    def __init__(self, model, temp, name):
        _Item.__init__(self, model)
        self.__dict__.update(_c={"sense": temp.sense, "rhs": temp.rhs, "constrname": name}, _expr=temp.expr, _gone=False)

    _ATTRS = {"sense": lambda s: s._c["sense"], "rhs": lambda s: s._c["rhs"], "constrname": lambda s: s._c["constrname"]}

    def __setattr__(self, name, value):
        n = name.lower()
        if n not in self._c:
            raise AttributeError(name)
        self._c[n] = value
        self._model._reset()

    setAttr = __setattr__


class GenConstr(_Item):
    def __init__(self, model, var, val, temp, name):
        _Item.__init__(self, model)
        self.__dict__.update(_var=var, _val=val, _temp=temp, _gone=False, _name=name)


class _Params:
    def __init__(self, model):
        self.__dict__["_m"] = model

    def __setattr__(self, name, value):
        self._m.setParam(name, value)


class Model(_Item):
    def __init__(self, name="", env=None):
        object.__setattr__(self, "_model", self)
        self.__dict__.update(_vars=[], _cons=[], _gens=[], _obj=LinExpr(), _sense=GRB.MINIMIZE, _params={}, _x=None, _status=GRB.LOADED, _objval=None, Params=_Params(self), _log=[])

    def __setattr__(self, name, value):
        if name.lower() == "modelsense":
            self.__dict__["_sense"] = value; self._reset()
        elif name.startswith("_"):
            self.__dict__[name] = value
        else:
            raise AttributeError(name)

    def _val(self):
        if self._objval is None:
            raise AttributeError("Unable to retrieve attribute 'objVal'")
        return self._objval

    _ATTRS = {"status": lambda s: s._status, "objval": _val, "numvars": lambda s: len(s._vars), "numconstrs": lambda s: len(s._cons), "solcount": lambda s: int(s._x is not None),
              "modelsense": lambda s: s._sense}

    def _reset(self):
        self._x = self._objval = None
        self._status = GRB.LOADED

    def setParam(self, name, value):
        if name.lower() not in PARAMS:
            raise GurobiError("Unknown parameter '%s'" % name)
        _finite(value, "parameter " + name)
        self._params[name.lower()] = value

    def update(self):
        pass

    def dispose(self):
        pass

    def getVars(self):
        return list(self._vars)

    def getConstrs(self):
        return list(self._cons)

    def addVar(self, lb=0.0, ub=float("inf"), obj=0.0, vtype=GRB.CONTINUOUS, name="", column=None):
        if vtype not in ("C", "B", "I") or column is not None:
            raise GurobiError("unsupported variable")
        v = Var(self, _finite(lb, "lb"), _finite(ub, "ub"), _finite(obj, "obj"), vtype, name)
        self._vars.append(v)
        if v._d["obj"]:
            self._obj.add(v, v._d["obj"])
        self._reset()
        return v

    def addVars(self, *indices, lb=0.0, ub=float("inf"), obj=0.0, vtype=GRB.CONTINUOUS, name=""):
        if len(indices) != 1:
            raise GurobiError("unsupported")
        ks = range(indices[0]) if isinstance(indices[0], int) else list(indices[0])
        return {k: self.addVar(lb, ub, obj, vtype, name) for k in ks}

    def _check(self, e):
        for v, _ in e.terms:
            if v._model is not self or v._gone:
                raise GurobiError("Variable not in model")

    def setObjective(self, expr, sense=None):
        e = LinExpr(expr)
        self._check(e)
        self._obj = e
        if sense is not None:
            if sense not in (1, -1):
                raise GurobiError("invalid sense")
            self._sense = sense
        self._reset()

    def addConstr(self, constr, name=""):
        if not isinstance(constr, TempConstr):
            raise GurobiError("Unsupported argument for addConstr: %r" % (constr,))
        if constr.then is not None:
            return self.addGenConstrIndicator(*constr.then, name=name)
        self._check(constr.expr)
        c = Constr(self, constr, name)
        self._cons.append(c)
        self._reset()
        return c

    def addLConstr(self, lhs, sense=None, rhs=None, name=""):
        if sense is not None:
            lhs = TempConstr(lhs, {"<=": "<", ">=": ">", "==": "="}.get(sense, sense), rhs)
        return self.addConstr(lhs, name)

    def addGenConstrIndicator(self, binvar, binval, lhs, sense=None, rhs=None, name=""):
        if sense is not None:
            lhs = TempConstr(lhs, {"<=": "<", ">=": ">", "==": "="}.get(sense, sense), rhs)
        if not isinstance(lhs, TempConstr) or lhs.then is not None or not isinstance(binvar, Var) or binvar._model is not self:
            raise GurobiError("unsupported indicator constraint")
        self._check(lhs.expr)
        g = GenConstr(self, binvar, int(binval), lhs, name)
        self._gens.append(g)
        self._reset()
        return g

    def remove(self, items):
        for x in items if isinstance(items, (list, tuple)) else [items]:
            if not isinstance(x, (Constr, GenConstr)) or x._model is not self:
                raise GurobiError("Item to be removed not in model")
            if x._gone:
                raise GurobiError("Item to be removed not in model")
            x.__dict__["_gone"] = True
            lst = self._cons if isinstance(x, Constr) else self._gens
            del lst[[y is x for y in lst].index(True)]
        self._reset()

    def chgCoeff(self, constr, var, newvalue):
        if not isinstance(constr, Constr) or constr._gone or constr._model is not self or not isinstance(var, Var) or var._model is not self:
            raise GurobiError("Item not in model")
        constr._expr.terms = [(v, c) for v, c in constr._expr.terms if v is not var] + [(var, _finite(newvalue, "coefficient"))]
        self._reset()

    def getCoeff(self, constr, var):
        return sum(c for v, c in constr._expr.terms if v is var)

    def getRow(self, constr):
        return LinExpr(constr._expr)

    def getObjective(self):
        return LinExpr(self._obj)

    # -- solving ------------------------------------------------------------------------------------------------------------------

    def optimize(self, callback=None):
        LAST.clear(); LAST.update(self._params)
        if self._params.get("outputflag", 1):
            self._log.append("log")
            print("Gurobi stand-in: optimizing a model with %d rows, %d columns" % (len(self._cons), len(self._vars)))
        self._reset()
        if self._params.get("timelimit", 1e100) <= 0:
            self._status = GRB.TIME_LIMIT
            return
        n = len(self._vars)
        lb = np.array([max(v._d["lb"], 0.0) if v._d["vtype"] == "B" else v._d["lb"] for v in self._vars], dtype=float)
        ub = np.array([min(v._d["ub"], 1.0) if v._d["vtype"] == "B" else v._d["ub"] for v in self._vars], dtype=float)
        lb[lb <= -1e20] = -np.inf; ub[ub >= 1e20] = np.inf
        ints = np.array([v._d["vtype"] != "C" for v in self._vars], dtype=int)
        for g in self._gens:
            if not ints[g._var._index]:
                raise GurobiError("the indicator variable of an indicator constraint has to be binary")
            k = g._var._index
            lb[k], ub[k] = max(lb[k], 0), min(ub[k], 1)      # the solver makes it binary
        s = self._sense
        c = s * self._obj._dense(n)
        rows = []
        for x in self._cons:
            a = x._expr._dense(n)
            rows.append((a, -np.inf if x._c["sense"] == "<" else x._c["rhs"], np.inf if x._c["sense"] == ">" else x._c["rhs"]))
        inds = []
        for g in self._gens:
            t = g._temp
            inds.append((g._var._index, g._val, t.expr._dense(n), -np.inf if t.sense == "<" else t.rhs, np.inf if t.sense == ">" else t.rhs))
        st, x = _branch(c, rows, lb, ub, ints, inds)
        self._status = st
        if st == GRB.OPTIMAL:
            self._x = x
            self._objval = float(s * (c @ x)) + self._obj.constant

    def write(self, path):
        raise GurobiError("not supported by the stand-in")


def _lp(c, rows, lb, ub, ints):
    """status, point; constant rows are decided here."""
    n = len(c)
    lb, ub = lb.copy(), ub.copy()
    for i in range(n):
        if ints[i]:
            lb[i], ub[i] = np.ceil(lb[i] - 1e-9), np.floor(ub[i] + 1e-9)
    if (lb > ub).any():
        return GRB.INFEASIBLE, None
    cons = []
    for a, lo, hi in rows:
        if a.any():
            cons.append((a, lo, hi))
        elif not (lo <= 1e-9 and hi >= -1e-9):
            return GRB.INFEASIBLE, None
    if n == 0:
        return GRB.OPTIMAL, np.zeros(0)

    def go(obj, integrality, lb=lb, ub=ub):
        kw = {"constraints": _LC(np.array([a for a, _, _ in cons]), [l for _, l, _ in cons], [h for _, _, h in cons])} if cons else {}
        r = _milp(obj, integrality=integrality, bounds=_B(lb, ub), options={"time_limit": 3, "mip_rel_gap": 0}, **kw)
        if r.status in (1, 4):
            r = _milp(obj, integrality=integrality, bounds=_B(lb, ub), options={"time_limit": 3, "mip_rel_gap": 0, "presolve": False}, **kw)
        return r
    r = go(c, ints)
    if r.status == 0:
        x = np.array(r.x)
        if ints.any():
            # exact integers, the rest solved again
            k = np.round(x)
            l2, u2 = np.where(ints == 1, k, lb), np.where(ints == 1, k, ub)
            r2 = go(c, np.zeros(n, dtype=int), l2, u2)
            if r2.status == 0:
                x = np.array(r2.x)
                x[ints == 1] = k[ints == 1]
        return GRB.OPTIMAL, np.clip(x, lb, ub)
    f = go(np.zeros(n), ints)
    if f.status == 2:
        return GRB.INFEASIBLE, None
    if f.status == 0:
        q = go(c, np.zeros(n, dtype=int))
        if q.status in (3, 4):
            return GRB.UNBOUNDED, None
    global FAILED
    FAILED += 1
    return GRB.NUMERIC, None


def _branch(c, rows, lb, ub, ints, inds):
    """Branch and bound over violated indicator constraints."""
    best = [None, None]
    end = time.process_time() + 8

    def rec(rows, lb, ub, todo):
        if time.process_time() > end:
            global FAILED
            FAILED += 1
            return GRB.NUMERIC
        st, x = _lp(c, rows, lb, ub, ints)
        if st == GRB.INFEASIBLE:
            return None
        if st == GRB.UNBOUNDED:
            # an unbounded direction may be cut off by the remaining implications
            if not todo:
                return st
            bad = todo[0]
        elif st != GRB.OPTIMAL:
            return st
        else:
            if best[0] is not None and c @ x >= best[0] - 1e-9 * (1 + abs(best[0])):
                return None
            bad = next((t for t in todo if x[t[0]] == t[1] and not (t[3] - 1e-9 <= t[2] @ x <= t[4] + 1e-9)), None)
            if bad is None:
                best[0], best[1] = c @ x, x
                return None
        rest = [t for t in todo if t is not bad]
        k, val, a, lo, hi = bad
        # the implication holds because its premise does not
        l2, u2 = lb.copy(), ub.copy()
        l2[k] = u2[k] = 1 - val
        if lb[k] <= 1 - val <= ub[k]:
            r = rec(rows, l2, u2, rest)
            if r is not None:
                return r
        # or because its conclusion does
        l2, u2 = lb.copy(), ub.copy()
        l2[k] = u2[k] = val
        if lb[k] <= val <= ub[k]:
            r = rec(rows + [(a, lo, hi)], l2, u2, rest)
            if r is not None:
                return r
        return None
    r = rec(rows, lb, ub, inds)
    if r is not None:
        return r, None
    return (GRB.OPTIMAL, best[1]) if best[1] is not None else (GRB.INFEASIBLE, None)
