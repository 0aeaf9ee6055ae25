"""One run of the pipeline in a fresh interpreter, in the environment given."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main(req):
    from sim import core, network, ops, seams, template

    lib = seams.shim()
    c = req["clock"]
    lib.ft_enable(c["wall"], c["step"])
    lib.ft_jumps(c["seed"], c["every"])
    seams.shuffle_listings(req["listing"])
    network.activate(dict(ping="unreach", dns="fail"))
    res = dict(error=None)
    ops.CLI = req["cli"]
    try:
        import exorad  # noqa
        import matplotlib

        matplotlib.use("Agg")
        template.memoise(os.environ["XR_SCRATCH"], warm=False)
        network.deactivate()
        src = req["src"]
        if req["saved"]:
            ops.build(src, req["saved"])
            src = req["saved"]
        ops.pipeline(src, req["csv"], req["out"], plot=req["plot"], full_contrib=req["full"])
        if req["tool"] is not None:
            ops.plot_tool(req["out"], os.path.join(os.path.dirname(req["out"]), "tool"), *req["tool"])
    except Exception as e:
        res["error"] = "%s: %s" % (type(e).__name__, e)
    res.update(jumps=lib.ft_jumped(), reads=lib.ft_reads(), listings=core._EXTRA.get("fault:listing", 0))
    lib.ft_disable()
    with open(req["res"], "w") as f:
        json.dump(res, f)


if __name__ == "__main__":
    with open(sys.argv[1]) as f:
        main(json.load(f))
