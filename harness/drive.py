"""drive.py PROPERTY TIER SEED SHARD NSHARDS OUT [CASES]: run the library, write the log"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from core import Rec
from gen import Gen
import d_calc
import d_text
import d_ufunc
import d_method
import d_unc
import d_heap
import d_reg
import d_dup
import d_func
import d_cat
import d_ctor
import d_cmp
import d_sig


def C01(rec, g, k):
    d_calc.drive_twins(rec, g, ['mul', 'div'], SHARD, NSH)
    d_calc.drive_bin(rec, g, ['mul', 'div', 'pow', 'pow', 'mul', 'div', 'fdiv'], 1500 * k)
    d_calc.drive_un(rec, g, 60 * k)
    d_calc.drive_dim(rec, g, 1200 * k)


def C02(rec, g, k):
    d_calc.drive_twins(rec, g, ['add', 'sub', 'mod', 'lt'], SHARD, NSH)
    d_calc.drive_bin(rec, g, ['add', 'sub', 'mod', 'lt', 'le', 'gt', 'ge'], 2000 * k)


def C03(rec, g, k):
    d_calc.drive_twins(rec, g, ['conv'], SHARD, NSH)
    d_calc.drive_conv(rec, g, 2500 * k)


def C19(rec, g, k):
    d_calc.drive_twins(rec, g, ['eq', 'ne', 'ge'], SHARD, NSH)
    d_calc.drive_bin(rec, g, sorted(d_calc.CMP) + ['eq', 'ne'], 2000 * k)


def C07(rec, g, k):
    d_text.drive_parse(rec, g, 900 * k)


def C09(rec, g, k):
    d_text.drive_text(rec, g, 900 * k)


def C11(rec, g, k):
    d_ufunc.drive_uf(rec, g, 1500 * k)
    d_ufunc.drive_red(rec, g, 15 * k)


def C12(rec, g, k):
    d_method.drive_meth(rec, g, 1800 * k)


def C16(rec, g, k):
    d_unc.drive_unc(rec, g, 1800 * k)


def C04(rec, g, k):
    if SHARD == 0:
        d_heap.probes(rec)
    d_heap.drive_heap(rec, g, 90 * k, 'C04')


def C05(rec, g, k):
    d_heap.drive_heap(rec, g, 90 * k, 'C05')
    d_method.drive_badout(rec, g, 80 * k)
    d_unc.drive_out(rec, g, 60 * k)


def C10(rec, g, k):
    d_heap.drive_heap(rec, g, 60 * k, 'C10')
    d_dup.drive_dup(rec, g, 400 * k)


def C13(rec, g, k):
    d_heap.drive_heap(rec, g, 80 * k, 'C13')
    d_dup.drive_list(rec, g, 250 * k)


def C06(rec, g, k):
    d_reg.drive_reg(rec, g, 40 * k, 'reg')


def C08(rec, g, k):
    d_reg.drive_reg(rec, g, 40 * k, 'dflt')


def C17(rec, g, k):
    d_reg.drive_reg(rec, g, 40 * k, 'pref')


def C18(rec, g, k):
    d_func.drive_func(rec, g, 2500 * k)


def C14(rec, g, k):
    d_cat.drive_units(rec, SHARD, NSH)
    d_cat.drive_pairs(rec, SHARD, NSH)
    d_cat.drive_pow(rec, g, 300 * k)


def C15(rec, g, k):
    d_cat.drive_consts(rec, g, SHARD, NSH, 40 * k)


def C21(rec, g, k):
    d_ctor.drive_ctor(rec, g, 2500 * k)


def C22(rec, g, k):
    d_cmp.drive_cmp(rec, g, 1100 * k)


def C23(rec, g, k):
    d_sig.drive_sig(rec, g, 65 * k)


def C20(rec, g, k):
    """the programs of all other properties, refusals included, under several interpreter modes"""
    d_calc.drive_bin(rec, g, ['add', 'sub', 'mod', 'lt', 'ge', 'eq', 'pow', 'pow', 'mul', 'fdiv'], 130 * k)
    d_calc.drive_dim(rec, g, 150 * k)
    d_calc.drive_conv(rec, g, 130 * k)
    d_text.drive_parse(rec, g, 100 * k)
    d_text.drive_text(rec, g, 60 * k)
    d_ufunc.drive_uf(rec, g, 130 * k)
    d_method.drive_meth(rec, g, 150 * k)
    d_unc.drive_unc(rec, g, 150 * k)
    d_func.drive_func(rec, g, 150 * k)
    d_ctor.drive_ctor(rec, g, 150 * k)
    d_cmp.drive_cmp(rec, g, 40 * k)
    d_dup.drive_list(rec, g, 30 * k)
    for f in ('C04', 'C05', 'C13'):
        d_heap.drive_heap(rec, g, 5 * k, f)
    for f in ('reg', 'dflt', 'pref'):
        d_reg.drive_reg(rec, g, 4 * k, f)
    d_sig.drive_sig(rec, g, 4 * k)


SHARD, NSH = 0, 1
PLANS = {n: f for n, f in globals().items() if n[0] == 'C' and n[1:].isdigit()}


def replay(rec, c):
    o = c['o']
    if o == 'parse':
        d_text.parse(rec, c['s'])
    elif o == 'text':
        d_text.replay_text(rec, c)
    elif o == 'uf':
        d_ufunc.uf(rec, c['f'], c['a'])
    elif o == 'unc':
        d_unc.unc(rec, c['f'], c['a'], {'ax': c['ax']})
    elif o == 'func':
        d_func.replay_func(rec, c)
    elif o == 'ctor':
        d_ctor.ctor(rec, c['f'], c['a'], c['dtp'], c.get('how', 0))
    elif o == 'cmp':
        d_cmp.replay_cmp(rec, c)
    elif o == 'reghist':
        d_reg.history(rec, c['ops'])
    elif o == 'heap':
        d_heap.replay_heap(rec, c)
    elif o == 'sig':
        d_sig.replay_sig(rec, c)
    elif o == 'meth':
        d_method.meth(rec, c['f'], c['a'], {k: v for k, v in c.items() if k not in ('o', 'f', 'a', 'via')}, c['via'])
    else:
        d_calc.replay(rec, c)


def main():
    prop, tier, seed, shard, nsh, out = sys.argv[1:7]
    global SHARD, NSH
    shard, nsh = SHARD, NSH = int(shard), int(nsh)
    rec = Rec(out)
    if len(sys.argv) > 7:
        cases = [json.loads(l) for l in open(sys.argv[7])]
        for c in cases[shard::nsh]:
            replay(rec, c)
    g = Gen('%s/%s/%d' % (seed, prop, shard))
    PLANS[prop](rec, g, 1 if tier == 'quick' else 12)
    rec.close()
    print(json.dumps({'lines': rec.n, 'counts': rec.counts}))


if __name__ == '__main__':
    main()
