"""setup_cmd: the analyser's own sanity check (interpreter and repository model)."""
import sys
sys.setrecursionlimit(20000)


def main():
    from .interp import Program
    p = Program()
    n = sum(1 for _ in p.source.functions())
    print(f"modules {len(p.modules)}, classes {len(p.classes)}, functions {n}")
    if n < 400 or len(p.classes) < 120:
        print("unexpectedly small program model")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
