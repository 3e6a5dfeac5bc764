"""Whole-tree lints that do not need value numbering."""


def run(prop):
    return []
