"""Run one verification target in its own process; writes the result as JSON."""
import sys, json, importlib, os
sys.setrecursionlimit(20000)
if hasattr(sys, 'set_int_max_str_digits'): sys.set_int_max_str_digits(0)
def main():
    mod, name, repo, out = sys.argv[1:5]
    timeout = int(sys.argv[5]) if len(sys.argv) > 5 else 8000
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    from pv import verify
    importlib.import_module('proofs.' + mod)
    t = [t for t in verify.TARGETS if t.name == name][0]
    r = verify.run_target(t, repo, timeout=timeout)
    with open(out + '.tmp', 'w') as f: json.dump(r, f, default=str)
    os.replace(out + '.tmp', out)
if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    main()
