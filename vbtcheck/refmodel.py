"""Reference model of order execution and of the array-driven simulations.

Written from the documented order semantics in plain Python floats, without numba and without calling
any code of the package under test. Enum values are the documented public integer codes."""
import math

NAN = float("nan")
INF = float("inf")
REL, ABS = 1e-9, 1e-12

AMOUNT, VALUE, PERCENT, T_AMOUNT, T_VALUE, T_PERCENT = range(6)
LONG, SHORT, BOTH = range(3)
FILLED, IGNORED, REJECTED = range(3)
(SizeNaN, PriceNaN, ValPriceNaN, ValueNaN, ValueZeroNeg, SizeZero, NoCashShort, NoCashLong, NoOpenPosition,
 MaxSizeExceeded, RandomEvent, CantCoverFees, MinSizeNotReached, PartialFill) = range(14)
BUY, SELL = 0, 1


class Ambiguous(Exception):
    """The case sits on a floating-point decision boundary; either outcome is legitimate."""


class ModelError(Exception):
    """The call must raise a ValueError."""


def isnan(x):
    return x != x


def close(a, b):
    if isnan(a) or isnan(b) or math.isinf(a) or math.isinf(b):
        return False
    if a == b:
        return True
    return abs(a - b) <= max(REL * max(abs(a), abs(b)), ABS)


def near(a, b, lo=1e-13, hi=1e-6):
    """Whether a and b are so close that the tolerance test could go either way."""
    if isnan(a) or isnan(b) or math.isinf(a) or math.isinf(b):
        return False
    d = abs(a - b)
    m = max(abs(a), abs(b), 1e-3)
    return m * lo < d < m * hi


def guard(a, b):
    if near(a, b, lo=1e-10):
        raise Ambiguous()


def less(a, b):
    guard(a, b)
    return False if close(a, b) else a < b


def leq(a, b):
    guard(a, b)
    return True if close(a, b) else a <= b


def snap(x):
    return 0.0 if close(x, 0.0) else x


def add(a, b):
    """a + b, where values that cancel out up to rounding give exactly zero."""
    if (a > 0) != (b > 0) or (a == 0) or (b == 0):
        if close(abs(a), abs(b)) and not (a == b and a != 0):
            return 0.0
    if close(a + b, 0.0):
        return 0.0
    return a + b


def granular(x, g):
    """Round down to a multiple of g."""
    if isnan(g):
        return x
    if math.isinf(x):
        return NAN
    q = x / g
    r = round(q)
    if abs(q - r) < 1e-7 * max(1.0, abs(q)):
        if abs(q - r) == 0.0 and g * r == x:
            return x
        raise Ambiguous()
    return math.floor(q) * g


ORDER_DEFAULTS = dict(size=INF, price=INF, size_type=AMOUNT, direction=BOTH, fees=0.0, fixed_fees=0.0, slippage=0.0,
                      min_size=0.0, max_size=INF, size_granularity=NAN, reject_prob=0.0, lock_cash=False,
                      allow_partial=True, raise_reject=False, log=False)


def _nofill(st, status, info):
    return st, dict(size=NAN, price=NAN, fees=NAN, side=-1, status=status, status_info=info)


def buy(st, size, o, percent):
    cash, pos, debt, free = st
    p = o["price"] * (1 + o["slippage"])
    f, ff, mx, g = o["fees"], o["fixed_fees"], o["max_size"], o["size_granularity"]
    # how much cash may be spent
    lim = cash
    if o["lock_cash"]:
        if pos >= 0:
            lim = free
        else:
            # buying back releases the short sale proceeds that were locked twice
            full_cover = abs(pos) * p * (1 + f) + ff
            left = add(free + 2 * debt, -full_cover)
            if left > 0:
                lim = free + 2 * debt
            elif left < 0:
                # cash needed to buy back one unit beyond what buying it back releases
                den = p * (1 + f) - 2 * debt / abs(pos)
                if abs(den) < 1e-9 and den != 0 or abs(free) < 1e-9 and free != 0:
                    raise Ambiguous()
                if den > 0:
                    lim = (free - ff) / den * p * (1 + f) + ff
                elif free >= 0:
                    lim = 0.0
                else:
                    lim = full_cover
            else:
                lim = cash
    lim = min(lim, cash)
    if not isnan(percent):
        lim = min(lim, percent * lim)
    if o["direction"] == SHORT:
        if pos == 0:
            return _nofill(st, REJECTED, NoOpenPosition)
        size_c = min(-pos, size)
    else:
        if abs(lim) < 1e-9 and lim != 0:
            raise Ambiguous()
        if lim == 0:
            return _nofill(st, REJECTED, NoCashLong)
        if math.isinf(size) and math.isinf(lim):
            raise ModelError()
        size_c = size
    if size_c == 0:
        return _nofill(st, IGNORED, SizeZero)
    if size_c > mx:
        guard(size_c, mx)
        if not o["allow_partial"]:
            return _nofill(st, REJECTED, MaxSizeExceeded)
        size_c = mx
    size_c = granular(size_c, g)
    if isnan(size_c) or math.isinf(size_c):
        need = INF
    else:
        need = size_c * p * (1 + f) + ff
    if not isnan(need) and not math.isinf(need) and leq(need, lim):
        final = size_c
        fees = size_c * p * f + ff
        spend = size_c * p + fees
    else:
        afford = add(lim, -ff) / (1 + f)
        if afford <= 0:
            return _nofill(st, REJECTED, CantCoverFees)
        if afford < 1e-9:
            raise Ambiguous()
        final = granular(afford / p, g)
        fees = final * p * f + ff
        spend = final * p + fees
    if close(final, 0.0):
        return _nofill(st, IGNORED, SizeZero)
    if abs(final) < 1e-9:
        raise Ambiguous()
    if less(final, o["min_size"]):
        return _nofill(st, REJECTED, MinSizeNotReached)
    if not math.isinf(size) and not o["allow_partial"] and less(final, size):
        return _nofill(st, REJECTED, PartialFill)
    ncash = add(cash, -spend)
    npos = add(pos, final)
    if pos < 0:
        covered = min(final, -pos) if npos < 0 else -pos
        released = covered * debt / abs(pos)
        ndebt = add(debt, -released)
        nfree = add(free + 2 * released, -spend)
    else:
        ndebt = debt
        nfree = add(free, -spend)
    return (ncash, npos, ndebt, nfree), dict(size=final, price=p, fees=fees, side=BUY, status=FILLED, status_info=-1)


def sell(st, size, o, percent):
    cash, pos, debt, free = st
    p = o["price"] * (1 - o["slippage"])
    f, ff, mx, g = o["fees"], o["fixed_fees"], o["max_size"], o["size_granularity"]
    if o["direction"] == LONG:
        lim = min(pos, size)
    elif o["lock_cash"] or (math.isinf(size) and not isnan(percent)):
        long_size = max(pos, 0.0)
        budget = add(free, long_size * p * (1 - f))
        if abs(budget) < 1e-9 and budget != 0:
            raise Ambiguous()
        if budget <= 0:
            if pos <= 0:
                return _nofill(st, REJECTED, NoCashShort)
            most = long_size
        else:
            d = p * (1 + f)
            if abs(d) < 1e-12:
                raise Ambiguous()
            most = add(long_size, add(budget, -ff) / d)
            if abs(most) < 1e-9 and most != 0:
                raise Ambiguous()
            if most <= 0:
                return _nofill(st, REJECTED, CantCoverFees)
        if o["lock_cash"]:
            if isnan(percent):
                lim = min(size, most)
            elif math.isinf(size):
                lim = min(percent * most, most)
            else:
                lim = min(percent * size, most)
            percent = NAN
        else:
            lim = most
    else:
        lim = size
    if not isnan(percent):
        lim = percent * lim
        if o["direction"] == LONG:
            lim = min(lim, pos)
    if lim > mx:
        guard(lim, mx)
        if not o["allow_partial"]:
            return _nofill(st, REJECTED, MaxSizeExceeded)
        lim = mx
    if o["direction"] == LONG:
        if pos == 0:
            return _nofill(st, REJECTED, NoOpenPosition)
    elif math.isinf(lim):
        raise ModelError()
    lim = granular(lim, g)
    if close(lim, 0.0):
        return _nofill(st, IGNORED, SizeZero)
    if abs(lim) < 1e-9:
        raise Ambiguous()
    if less(lim, o["min_size"]):
        return _nofill(st, REJECTED, MinSizeNotReached)
    if not math.isinf(size) and not o["allow_partial"] and less(lim, size):
        return _nofill(st, REJECTED, PartialFill)
    gross = lim * p
    fees = gross * f + ff
    net = add(gross, -fees)
    if net < 0:
        return _nofill(st, REJECTED, CantCoverFees)
    ncash = cash + net
    npos = add(pos, -lim)
    if npos < 0:
        opened = lim if pos < 0 else -npos
        ndebt = debt + opened * p
        nfree = add(free, add(net, -2 * opened * p))
    else:
        ndebt = debt
        nfree = free + net
    return (ncash, npos, ndebt, nfree), dict(size=lim, price=p, fees=fees, side=SELL, status=FILLED, status_info=-1)


def execute(cash, pos, debt, free, val_price, value, order):
    """Returns ((cash, pos, debt, free), result)."""
    o = order
    for x in (cash, pos, debt, free, value, val_price):
        if x != 0 and abs(x) < 1e-9:
            raise Ambiguous()
    st = (cash, pos, debt, free)
    if isnan(o["size"]):
        return _nofill(st, IGNORED, SizeNaN)
    if isnan(o["price"]):
        return _nofill(st, IGNORED, PriceNaN)
    bad = (isnan(cash) or cash < 0 or not math.isfinite(pos) or not math.isfinite(debt) or debt < 0 or isnan(free)
           or not math.isfinite(o["price"]) or o["price"] <= 0
           or not (0 <= o["size_type"] < 6) or not (0 <= o["direction"] < 3)
           or (o["direction"] == LONG and pos < 0) or (o["direction"] == SHORT and pos > 0)
           or not math.isfinite(o["fees"]) or not math.isfinite(o["fixed_fees"])
           or not math.isfinite(o["slippage"]) or o["slippage"] < 0
           or not math.isfinite(o["min_size"]) or o["min_size"] < 0
           or isnan(o["max_size"]) or o["max_size"] <= 0
           or math.isinf(o["size_granularity"]) or o["size_granularity"] <= 0
           or not (0 <= o["reject_prob"] <= 1))
    if bad:
        raise ModelError()
    s, t = o["size"], o["size_type"]
    if o["direction"] == SHORT:
        s = -s
    if t == T_PERCENT:
        if isnan(value):
            return _nofill(st, IGNORED, ValueNaN)
        if value <= 0:
            return _nofill(st, REJECTED, ValueZeroNeg)
        s, t = s * value, T_VALUE
    if t in (VALUE, T_VALUE):
        if math.isinf(val_price) or val_price <= 0:
            raise ModelError()
        if isnan(val_price):
            return _nofill(st, IGNORED, ValPriceNaN)
        s, t = s / val_price, (AMOUNT if t == VALUE else T_AMOUNT)
    if t == T_AMOUNT:
        d = s - pos
        if not math.isinf(s) and d != 0 and abs(d) < 1e-7 * max(abs(s), abs(pos)):
            raise Ambiguous()
        s, t = d, AMOUNT
    percent = NAN
    if t == AMOUNT and o["direction"] != LONG and s == -INF:
        percent = 1.0
    elif t == PERCENT:
        percent = abs(s)
        if s != 0:
            s = INF if s > 0 else -INF
    if s > 0:
        nst, res = buy(st, s, o, percent)
    else:
        nst, res = sell(st, -s, o, percent)
    if o["reject_prob"] == 1:
        return _nofill(st, REJECTED, RandomEvent)
    if 0 < o["reject_prob"]:
        raise Ambiguous()
    return nst, res


class RejectedError(Exception):
    pass


class Ledger:
    """Order and log lists plus per-order processing shared by the simulations."""

    def __init__(self, update_value):
        self.orders = []
        self.logs = []
        self.update_value = update_value

    def process(self, i, col, group, cash, pos, debt, free, val_price, value, order):
        nst, res = execute(cash, pos, debt, free, val_price, value, order)
        if res["status"] == REJECTED and order["raise_reject"]:
            raise RejectedError()
        nvp, nv = val_price, value
        if res["status"] == FILLED and self.update_value:
            nvp = res["price"]
            before = pos * val_price if pos != 0 else 0.0
            after = nst[1] * nvp if nst[1] != 0 else 0.0
            nv = value + (nst[0] - cash) + (after - before)
        oid = -1
        if res["status"] == FILLED:
            oid = len(self.orders)
            self.orders.append(dict(id=oid, col=col, idx=i, size=res["size"], price=res["price"], fees=res["fees"],
                                    side=res["side"]))
        if order["log"]:
            rec = dict(id=len(self.logs), group=group, col=col, idx=i, cash=cash, position=pos, debt=debt,
                       free_cash=free, val_price=val_price, value=value,
                       new_cash=nst[0], new_position=nst[1], new_debt=nst[2], new_free_cash=nst[3],
                       new_val_price=nvp, new_value=nv, res_size=res["size"], res_price=res["price"],
                       res_fees=res["fees"], res_side=res["side"], res_status=res["status"],
                       res_status_info=res["status_info"], order_id=oid)
            for k in ORDER_DEFAULTS:
                rec["req_" + k] = order[k]
            self.logs.append(rec)
        return res, nst, nvp, nv


def approx_value(size, size_type, direction, cash, pos, free, vp, value):
    if direction == SHORT:
        size = -size
    av = pos * vp
    if size_type == AMOUNT:
        return size * vp
    if size_type == VALUE:
        return size
    if size_type == PERCENT:
        if size >= 0:
            return size * cash
        if direction == LONG:
            return size * av
        return size * (2 * max(av, 0.0) + max(free, 0.0))
    if size_type == T_AMOUNT:
        return size * vp - av
    if size_type == T_VALUE:
        return size - av
    return size * value - av


def auto_seq(values):
    """Order of execution when sorted by order value; ties keep column order."""
    if any(isnan(v) for v in values):
        raise Ambiguous()
    for a in range(len(values)):
        for b in range(a):
            guard(values[a], values[b])
            if values[a] != values[b] and close(values[a], values[b]):
                raise Ambiguous()
    return sorted(range(len(values)), key=lambda k: values[k])


def sim_orders(shape, group_lens, init_cash, call_seq, get, close_, val_price, auto_call_seq, ffill_val_price,
               update_value):
    """`get(name, i, col)` gives the broadcast order field; close_/val_price are nested lists [i][col].

    Returns a Ledger. With cash sharing the group lengths are > 1 somewhere."""
    n, m = shape
    led = Ledger(update_value)
    sharing = any(g > 1 for g in group_lens)
    pos, debt = [0.0] * m, [0.0] * m
    vps = [NAN] * m
    c0 = 0
    led.call_seq = [[None] * m for _ in range(n)]
    led.end_cash = []
    for g, gl in enumerate(group_lens):
        cols = list(range(c0, c0 + gl))
        cash = free = float(init_cash[g])
        for i in range(n):
            price = {}
            for c in cols:
                p = get("price", i, c)
                if math.isinf(p):
                    p = close_[i][c] if p > 0 else (close_[i - 1][c] if i > 0 else NAN)
                price[c] = p
                v = val_price(i, c)
                if math.isinf(v):
                    v = p if v > 0 else (close_[i - 1][c] if i > 0 else NAN)
                if not isnan(v) or not ffill_val_price:
                    vps[c] = v
            value = cash
            if sharing:
                for c in cols:
                    if pos[c] != 0:
                        value += pos[c] * vps[c]
                if auto_call_seq:
                    seq = auto_seq([approx_value(get("size", i, c), get("size_type", i, c), get("direction", i, c),
                                                 cash, pos[c], free, vps[c], value) for c in cols])
                else:
                    seq = call_seq[i][c0:c0 + gl]
            else:
                seq = list(range(gl))
            for k, s in enumerate(seq):
                c = c0 + s
                led.call_seq[i][c0 + k] = s
                if not sharing:
                    value = cash + (pos[c] * vps[c] if pos[c] != 0 else 0.0)
                order = {k2: get(k2, i, c) for k2 in ORDER_DEFAULTS if k2 != "price"}
                order["price"] = price[c]
                res, nst, nvp, value = led.process(i, c, g, cash, pos[c], debt[c], free, vps[c], value, order)
                cash, pos[c], debt[c], free = nst
                if not isnan(nvp) or not ffill_val_price:
                    vps[c] = nvp
        led.end_cash.append(cash)
        c0 += gl
    led.end_pos = pos
    return led


# ---------------------------------------------------------------- signals

ACC_NO, ACC_BOTH, ACC_ADD, ACC_REMOVE = range(4)


def resolve_conflict(pos, entry, exit_, mode):
    """Entry and exit of the same direction at once: ignore/entry/exit/adjacent/opposite."""
    if entry and exit_:
        if mode == 1:
            return True, False
        if mode == 2:
            return False, True
        if mode in (3, 4) and pos != 0:
            return (True, False) if mode == 3 else (False, True)
        return False, False
    return entry, exit_


def resolve_direction(pos, le, se, mode):
    if le and se:
        if mode == 1:
            return True, False
        if mode == 2:
            return False, True
        if mode == 3 and pos != 0:
            return pos > 0, pos < 0
        if mode == 4 and pos != 0:
            return pos < 0, pos > 0
        return False, False
    return le, se


def signal_size(pos, le, lx, se, sx, size, stype, acc, vp):
    """Signed size, size type, direction."""
    if stype not in (AMOUNT, VALUE, PERCENT):
        raise ModelError()
    if size < 0 and not close(size, 0):
        raise ModelError()
    if pos == 0:
        return (size if le else -size if se else 0.0), stype, BOTH
    same_entry, opp_entry, exit_ = (le, se, lx) if pos > 0 else (se, le, sx)
    own = LONG if pos > 0 else SHORT
    toward = -1.0 if pos > 0 else 1.0  # the sign of an order that reduces the position
    reduces = acc in (ACC_BOTH, ACC_REMOVE)
    adds = acc in (ACC_BOTH, ACC_ADD)
    if opp_entry:
        if reduces:
            return toward * size, stype, BOTH
        amount = abs(pos)
        if not isnan(size):
            if stype == PERCENT:
                raise ModelError()
            if stype == VALUE:
                if vp == 0:
                    raise Ambiguous()
                amount += size / vp
            else:
                amount += size
        return toward * amount, AMOUNT, BOTH
    if exit_:
        if reduces:
            return toward * size, stype, own
        return toward * abs(pos), AMOUNT, own
    if same_entry:
        return (-toward * size if adds else 0.0), stype, own
    return 0.0, stype, BOTH


def stop_hit(pos, base, stop, o, lo, hi, against):
    """Price at which a stop `stop` away from `base` is hit within the bar (NaN if not)."""
    if stop < 0:
        raise ModelError()
    if pos == 0:
        return NAN
    down = (pos > 0) == against
    level = base * (1 - stop) if down else base * (1 + stop)
    for x in (o, lo, hi):
        if x != level and near(x, level, lo=0.0, hi=1e-9):
            raise Ambiguous()
    if (o <= level) if down else (o >= level):
        return o
    if lo <= level <= hi:
        return level
    return NAN


def sim_signals(shape, group_lens, init_cash, call_seq, get, signals, bar, val_price, use_stops, auto_call_seq,
                ffill_val_price, update_value, adjust_sl=None, adjust_tp=None):
    """`signals(i, col)` -> (long entry, long exit, short entry, short exit); `bar(i, col)` -> (o, h, l, c)."""
    n, m = shape
    led = Ledger(update_value)
    sharing = any(g > 1 for g in group_lens)
    pos, debt, vps = [0.0] * m, [0.0] * m, [NAN] * m
    sl = [dict(init_i=-1, init=NAN, i=-1, price=NAN, stop=NAN, trail=False) for _ in range(m)]
    tp = [dict(init_i=-1, init=NAN, stop=NAN) for _ in range(m)]
    led.stops_hit = 0
    led.call_seq = [[None] * m for _ in range(n)]
    led.end_cash = []
    c0 = 0
    for g, gl in enumerate(group_lens):
        cols = list(range(c0, c0 + gl))
        cash = free = float(init_cash[g])
        for i in range(n):
            plan = {}
            for c in cols:
                o, h, l, cl = bar(i, c)
                p = get("price", i, c)
                if math.isinf(p):
                    if p > 0:
                        p = cl
                    else:
                        p = o if not isnan(o) else (bar(i - 1, c)[3] if i > 0 else NAN)
                v = val_price(i, c)
                if math.isinf(v):
                    v = p if v > 0 else (bar(i - 1, c)[3] if i > 0 else NAN)
                if not isnan(v) or not ffill_val_price:
                    vps[c] = v
                plan[c] = dict(price=p)
            for c in cols:
                o, h, l, cl = bar(i, c)
                price, slip = plan[c]["price"], get("slippage", i, c)
                hit = NAN
                if use_stops:
                    if adjust_sl is not None:
                        sl[c]["stop"], sl[c]["trail"] = adjust_sl(i, c, pos[c], vps[c], sl[c])
                    if adjust_tp is not None:
                        tp[c]["stop"] = adjust_tp(i, c, pos[c], vps[c], tp[c])
                    if not isnan(sl[c]["stop"]) or not isnan(tp[c]["stop"]):
                        bo = cl if isnan(o) else o
                        bl = min(bo, cl) if isnan(l) else l
                        bh = max(bo, cl) if isnan(h) else h
                        if not isnan(sl[c]["stop"]):
                            hit = stop_hit(pos[c], sl[c]["price"], sl[c]["stop"], bo, bl, bh, True)
                        if isnan(hit) and not isnan(tp[c]["stop"]):
                            hit = stop_hit(pos[c], tp[c]["init"], tp[c]["stop"], bo, bl, bh, False)
                        if not isnan(sl[c]["stop"]) and sl[c]["trail"]:
                            if pos[c] > 0 and bh > sl[c]["price"]:
                                sl[c]["price"], sl[c]["i"] = bh, i
                            elif pos[c] < 0 and bl < sl[c]["price"]:
                                sl[c]["price"], sl[c]["i"] = bl, i
                acc = int(get("accumulate", i, c))
                if not isnan(hit):
                    led.stops_hit += 1
                    mode = get("upon_stop_exit", i, c)
                    if mode in (0, 2):
                        acc = ACC_NO
                    close_it = mode in (0, 1)
                    lng = pos[c] > 0
                    le, lx, se, sx = (not lng and not close_it, lng and close_it, lng and not close_it,
                                      not lng and close_it)
                    how = get("stop_exit_price", i, c)
                    if how == 0:
                        price, slip = hit, 0.0
                    elif how == 1:
                        price = hit
                    elif how == 3:
                        price = cl
                else:
                    le, lx, se, sx = signals(i, c)
                    if le or se:
                        le, lx = resolve_conflict(pos[c], le, lx, get("upon_long_conflict", i, c))
                        se, sx = resolve_conflict(pos[c], se, sx, get("upon_short_conflict", i, c))
                        le, se = resolve_direction(pos[c], le, se, get("upon_dir_conflict", i, c))
                        mode = get("upon_opposite_entry", i, c)
                        if pos[c] > 0 and se or pos[c] < 0 and le:
                            lng = pos[c] > 0
                            if mode in (0, 1, 2):
                                if lng:
                                    se = False
                                else:
                                    le = False
                                if mode != 0:
                                    lx, sx = (True, sx) if lng else (lx, True)
                            if mode in (1, 3):
                                acc = ACC_NO
                s, t, d = signal_size(pos[c], le, lx, se, sx, get("size", i, c), get("size_type", i, c), acc, vps[c])
                plan[c] = dict(price=price, slippage=slip, size=s, size_type=t, direction=d)
            value = cash
            if sharing:
                for c in cols:
                    if pos[c] != 0:
                        value += pos[c] * vps[c]
                if auto_call_seq:
                    vals = []
                    for c in cols:
                        x = plan[c]
                        if x["size"] == 0:
                            vals.append(0.0)
                        elif x["size_type"] == AMOUNT:
                            vals.append(x["size"] * vps[c])
                        elif x["size_type"] == VALUE:
                            vals.append(x["size"])
                        elif x["size"] >= 0:
                            vals.append(x["size"] * cash)
                        elif x["direction"] == LONG:
                            vals.append(x["size"] * pos[c] * vps[c])
                        else:
                            vals.append(x["size"] * (2 * max(pos[c] * vps[c], 0.0) + max(free, 0.0)))
                    seq = auto_seq(vals)
                else:
                    seq = call_seq[i][c0:c0 + gl]
            else:
                seq = list(range(gl))
            for k, q in enumerate(seq):
                c = c0 + q
                led.call_seq[i][c0 + k] = q
                if not sharing:
                    value = cash + (pos[c] * vps[c] if pos[c] != 0 else 0.0)
                x = plan[c]
                if x["size"] == 0:
                    continue
                order = {k2: get(k2, i, c) for k2 in ORDER_DEFAULTS
                         if k2 not in ("price", "slippage", "size", "size_type", "direction")}
                order.update(x)
                if order["direction"] == SHORT:
                    order["size"] = -order["size"]
                before = pos[c]
                res, nst, nvp, value = led.process(i, c, g, cash, pos[c], debt[c], free, vps[c], value, order)
                cash, pos[c], debt[c], free = nst
                if use_stops and res["status"] == FILLED:
                    if pos[c] == 0:
                        sl[c] = dict(init_i=-1, init=NAN, i=-1, price=NAN, stop=NAN, trail=False)
                        tp[c] = dict(init_i=-1, init=NAN, stop=NAN)
                    else:
                        base = [nvp, order["price"], res["price"], bar(i, c)[3]][int(get("stop_entry_price", i, c))]
                        nsl, ntr, ntp = get("sl_stop", i, c), get("sl_trail", i, c), get("tp_stop", i, c)
                        mode = get("upon_stop_update", i, c)
                        opened = before == 0 or (before > 0) != (pos[c] > 0)
                        grown = not opened and abs(pos[c]) > abs(before)
                        if opened or grown and (mode == 2 or mode == 1 and not isnan(nsl)):
                            sl[c] = dict(init_i=i, init=base, i=i, price=base, stop=nsl, trail=ntr)
                        if opened or grown and (mode == 2 or mode == 1 and not isnan(ntp)):
                            tp[c] = dict(init_i=i, init=base, stop=ntp)
                if not isnan(nvp) or not ffill_val_price:
                    vps[c] = nvp
        led.end_cash.append(cash)
        c0 += gl
    led.end_pos = pos
    return led
