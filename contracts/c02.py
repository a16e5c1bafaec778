import lin
expr = lin.linear("C02X", "expr", ["all", "mul", "dot"])
op = lin.linear("C02P", "op", ["all", "mul", "dot"])
op.fn("OperatorExpression::add2(OperatorExpression&, rational)", "this expr factor", req=["nz this"],
      ens=[("no zero coefficient", "nz this"), ("scaled sum", "forall t. coef this t = coef (old this) t +. (if cmem expr t then rmul factor (cget expr t) else 0.0)")],
      loops={1: [("no zero", "nz this"), ("done so far", "forall t. coef this t = coef (old this) t +. (if cmem expr t && cidx expr t < it1 then rmul factor (cget expr t) else 0.0)")]})
