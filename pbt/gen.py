"""Small strategy helpers (imported only inside workers)."""
from hypothesis import strategies as st


def op(name, *args):
    return st.tuples(st.just(name), *args).map(list)


def ops(*choices, min_size=1, max_size=40):
    """choices: strategies, or (weight, strategy)."""
    flat = []
    for c in choices:
        if isinstance(c, tuple):
            flat.extend([c[1]] * c[0])
        else:
            flat.append(c)
    table = list(flat)
    return st.lists(
        st.integers(0, len(table) - 1).flatmap(lambda i: table[i]),
        min_size=min_size, max_size=max_size)


def small(n):
    return st.integers(0, n)


def record(**fields):
    return st.fixed_dictionaries(fields)


def sized(*choices):
    """A strategy drawn from one of several (so long cases are common)."""
    return st.integers(0, len(choices) - 1).flatmap(lambda i: choices[i])
