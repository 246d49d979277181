"""the binding itself is tested: corrupted histories must be rejected."""
import json

from lib import MachineryError, tlc


def must_reject(ctx, module, histories, cfg=None, env=None):
    if not histories:
        return
    path = ctx.out / f"corrupt_{module}.json"
    path.write_text(json.dumps(histories))
    res = tlc(module, cfg=cfg, env={"TRACE_FILE": path, **(env or {})})
    done = {r[1] for r in res.printed("DONE")}
    bad = {r[1] for r in res.printed("BAD")}
    accepted = [h for h in done if h not in bad]
    if accepted:
        raise MachineryError(
            f"{module} accepted {len(accepted)} corrupted histories"
        )
    path.unlink()
    ctx.extra["corrupted_histories_rejected"] = (
        ctx.extra.get("corrupted_histories_rejected", 0) + len(histories)
    )
