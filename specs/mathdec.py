"""decompositions"""
import mathf
ops = mathf.decomp
