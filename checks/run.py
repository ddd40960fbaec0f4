"""Entry point of every check: python3 checks/run.py <property> [quick|thorough]"""
import importlib, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), "lib")]
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
import vf


def main():
    pid = sys.argv[1]
    try:
        c = vf.Check(pid)
        mod = importlib.import_module(pid.lower())
        mod.check(c)
        return c.finish()
    except vf.HarnessError as e:
        print("CHECK ERROR (%s): %s" % (pid, e))
        return 2
    except (KeyError, IndexError, TypeError, ValueError, ZeroDivisionError, AttributeError, AssertionError) as e:
        # what the program printed or wrote does not even have the expected form
        traceback.print_exc()
        c.viol.append(dict(what="the output of the program could not be interpreted: %s: %s" % (type(e).__name__, e),
                           traceback=traceback.format_exc()))
        return c.finish()
    except Exception:
        traceback.print_exc()
        print("CHECK ERROR (%s)" % pid)
        return 2
    finally:
        vf.cleanup()


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
