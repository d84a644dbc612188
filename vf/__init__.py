"""Conformance framework: binds the TLA+ specification in /verif/spec to ufunclab."""
