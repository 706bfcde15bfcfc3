"""Worker process: runs the scenarios of one chunk with the given driver."""
import importlib, json, os, shutil, sys, traceback

def main():
    driver, inf, outf, cases = sys.argv[1:5]
    mod = importlib.import_module(driver)
    with open(inf) as f:
        todo = [json.loads(l) for l in f]
    out = open(outf, "a")
    for item in todo:
        i = item["i"]
        out.write(json.dumps(dict(begin=i)) + "\n"); out.flush()
        d = os.path.join(cases, f"c{i}")
        os.makedirs(d)
        os.chmod(d, 0o755)
        cwd = os.getcwd()
        try:
            trace = mod.run_case(item["scn"], d)
        except BaseException as e:  # the driver itself failed: no conforming behaviour can be shown
            if isinstance(e, KeyboardInterrupt):
                raise
            trace = dict(outcome="crash", detail=traceback.format_exc()[-3000:])
        os.chdir(cwd)
        out.write(json.dumps(dict(i=i, trace=trace)) + "\n"); out.flush()
        shutil.rmtree(d, ignore_errors=True)
    out.close()
    os._exit(0)

main()
