"""delegation to the C library"""
import mathf


def ops_for(T, tier, target, abi):
    return mathf.libm(T, tier, target, abi)
