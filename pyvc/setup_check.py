"""Nothing to build: checks that the verifier and the package load."""
import sys

from . import props


def main():
    props.load_specs()
    import z3

    print("z3", z3.get_version_string(), "properties:", len(props.properties()))
    return 0


if __name__ == "__main__":
    sys.exit(main())
