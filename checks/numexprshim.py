"""numexpr evaluates an expression of the caller's variables, element by element (checked against numexpr by the witness runs)."""
import sys
import types


def module(np):
    import numexpr
    m = types.ModuleType("numexpr")
    m.__dict__.update(vars(numexpr))
    functions = {n: getattr(np, n) for n in ("sin", "cos", "tan", "exp", "expm1", "log", "log10", "log1p", "sqrt", "sinh", "cosh", "tanh", "where")}
    functions["abs"] = np.abs

    def evaluate(ex, local_dict=None, global_dict=None, out=None, order="K", casting="safe", sanitize=None, _frame_depth=3, **kwargs):
        frame = sys._getframe(1)
        names = dict(frame.f_globals if global_dict is None else global_dict)
        names.update(frame.f_locals if local_dict is None else local_dict)
        names.update(functions)
        names["__builtins__"] = {}
        r = eval(ex, names)
        if out is None:
            return r
        out[...] = r
        return out
    m.evaluate = evaluate
    return m
