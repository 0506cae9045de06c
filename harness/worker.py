import sys

if __name__ == "__main__":
    from harness import core

    if sys.argv[1] == "--list":
        import contextlib, io, json

        from harness import boot

        boot.hypothesis_path()
        with contextlib.redirect_stdout(io.StringIO()):
            core.load_prop(sys.argv[2])
        print(json.dumps({k: s.single for k, s in core.SUBS.items() if sys.argv[3] in s.tiers}))
    elif sys.argv[1] == "--replay":
        sys.exit(core.replay(sys.argv[2]))
    else:
        pid, name, tier, seed, out = sys.argv[1:6]
        shard, shards = map(int, sys.argv[6:8] or (0, 1))
        core.worker(pid, name, tier, int(seed), out, shard, shards)
