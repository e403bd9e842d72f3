"""Specifications without importing JAX in the parent process."""
from __future__ import annotations


def spec_of(prop, seed, tier, i):
    import json

    from . import props

    return json.loads(json.dumps(props.PROPS[prop](seed, tier).full(i)))
