"""Property id -> world module."""

REGISTRY = {p: "containers" for p in ("P01", "P02", "P03", "P04", "P05", "P07", "P08", "P09", "P10", "P11", "P14")}
REGISTRY.update({p: "arrays" for p in ("P06", "P12", "P13")})
REGISTRY.update({p: "disk" for p in ("P18", "P19", "P20", "P23")})
REGISTRY.update({"P17": "hashing", "P15": "cluster", "P16": "cluster"})
REGISTRY.update({"P21": "sharing", "P22": "sharing"})
REGISTRY.update({"P24": "records", "P25": "bits"})
REGISTRY.update({"P26": "values", "P27": "values"})
