"""One worker process: explores the shards it is given on stdin, one JSON line each, and answers in JSON lines."""
import importlib
import json
import os
import sys
import time
import traceback
import warnings


def main():
    warnings.filterwarnings('ignore')
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)  # Nothing else may write to the answers
    name, tier = sys.argv[1], sys.argv[2]
    from mc.lib import Ctx, StopShard
    known = json.loads(os.environ.get('MC_KNOWN', '[]'))
    try:
        module = importlib.import_module('mc.checks.' + name.lower())
        module.setup(tier) if hasattr(module, 'setup') else None
    except BaseException as e:
        out.write(json.dumps({'import_error': f'{type(e).__name__}: {e}\n{traceback.format_exc()[-3000:]}'}) + '\n')
        out.flush()
        return
    out.write(json.dumps({'ready': True}) + '\n')
    out.flush()
    for line in sys.stdin:
        msg = json.loads(line)
        if 'case' in msg:
            ctx = Ctx(module, msg.get('shard'), known)
            try:
                if msg['case'] is None:
                    module.run(msg['shard'], ctx)
                else:
                    ctx.do(msg['case'])
            except StopShard:
                pass
        else:
            ctx = Ctx(module, msg['shard'], known, deadline=msg.get('deadline'))
            ctx.beat = lambda: (out.write('{"beat": 1}\n'), out.flush())
            try:
                module.run(msg['shard'], ctx)
            except StopShard:
                pass
            except BaseException as e:
                ctx.fails.append({'case': None, 'shard': msg['shard'], 'key': None,
                                  'message': f'unexpected {type(e).__name__}: {e}\n{traceback.format_exc()[-2500:]}'})
        out.write(json.dumps(ctx.result(), default=repr) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
