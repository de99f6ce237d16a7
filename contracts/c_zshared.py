"""Contracts that decide more than one property: a function's contract is
written down with the property it matters most to, and counts for these too."""
from pyvc.contract import REGISTRY

XS = "execution.ProgramState."
ALSO = {
    "C03": ["ptypes.List.copy", "ptypes.Range.copy", "execution.Lval.copy", "execution.Lval.__eq__"],
    "C04": ["ptypes.List.toNumber", "ptypes.Range.__bool__"],
    "C09": [XS + "REMOVE#string"],
    "C18": [XS + "REMOVE#string"],
    "C19": [XS + "REMOVE#list"],
    "C20": ["ptypes.Range.__contains__", "ptypes.List.__contains__", "ptypes.Range.count"],
    "C21": ["ptypes.Scalar.toNumber", "ptypes.Pattern.toNumber", "ptypes.Block.toNumber", "ptypes.Nil.toNumber"],
}
for prop, names in ALSO.items():
    for name in names:
        if name not in REGISTRY:
            raise RuntimeError("no contract " + name)
        for key, c in REGISTRY.items():
            if (key == name or key.startswith(name + "#case")) and prop not in c.props:
                c.props.append(prop)
