"""Uses the Python wrapper: one request by line of the standard input, one reply by line"""
import ctypes
import json
import os
import sys

out = os.fdopen(os.dup(1), "w", encoding="utf8")
os.dup2(2, 1)

from snips_nlu_rust import NLUEngine  # noqa: E402


class Info(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in (
        "arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks",
        "fsmblks", "uordblks", "fordblks", "keepcost")]


libc = ctypes.CDLL(None)
libc.mallinfo2.restype = Info


def held():
    info = libc.mallinfo2()
    return info.uordblks + info.hblkhd


def arguments(call, texts):
    """Name of the method, its positional and its named arguments"""
    if call["kind"] == "parse":
        named = {}
        for k in ("intents_whitelist", "intents_blacklist"):
            if call.get(k) is not None:
                named[k] = list(call[k])
        for k in ("intents_alternatives", "slots_alternatives"):
            if call.get(k) is not None:
                named[k] = call[k]
        return "parse", (texts[call["text"]],), named
    if call["kind"] == "intents":
        return "get_intents", (texts[call["text"]],), {}
    named = {}
    if call.get("slots_alternatives") is not None:
        named["slots_alternatives"] = call["slots_alternatives"]
    return "get_slots", (texts[call["text"]], call["intent"]), named


def create(step):
    if step.get("dir") is not None:
        return NLUEngine(engine_dir=step["dir"])
    if step.get("data") is not None:
        with open(step["data"], "rb") as f:
            data = bytearray(f.read())
        return NLUEngine(engine_bytes=data)
    return NLUEngine()


def answer(f):
    try:
        return {"result": f()}
    except Exception as e:
        return {"error": str(e), "type": [c.__name__ for c in type(e).__mro__]}


def kept(f, rounds):
    """Bytes that stay held each time"""
    least = None
    for _ in range(rounds):
        before = held()
        f()
        grown = held() - before
        least = grown if least is None else min(least, grown)
        if least <= 0:
            break
    return least


def serve(request):
    texts = request["texts"]
    made = answer(lambda: create(request["engine"]))
    if "error" in made:
        return {"created": made, "answers": [], "kept": [], "engine": 0}
    engine = made["result"]
    answers = []
    for step in request["steps"]:
        if step["kind"] == "create":
            answers.append(answer(lambda: create(step) and None))
        elif step["kind"] == "wrong":
            value = json.loads(step["value"])
            f = {step["filter"]: value}
            answers.append(answer(lambda: engine.parse(texts[0], **f)))
        else:
            name, a, k = arguments(step, texts)
            answers.append(answer(lambda: getattr(engine, name)(*a, **k)))
    grown = []
    for step in request["steps"]:
        if step["kind"] in ("create", "wrong"):
            continue
        name, a, k = arguments(step, texts)

        def once():
            try:
                getattr(engine, name)(*a, **k)
            except ValueError:
                pass
        once()
        grown.append(kept(once, 40))
    del engine
    made = None

    def again():
        create(request["engine"])
    size = 0
    if request["again"]:
        again()
        size = kept(again, 20)
    return {"created": None, "answers": answers, "kept": grown, "engine": size}


for line in sys.stdin:
    print(json.dumps(serve(json.loads(line))), file=out, flush=True)
