// What each property's check explores.  A job is a TLC run of a specification
// module whose printed behaviours go to a handler that replays them.
const SEED = Number(process.env.VERIF_SEED ?? 1);
const gen = (profile, num, o = {}) => ({ tlc: { module: 'WasmGen', consts: { PROFILE: profile, STEPS: o.steps ?? 4000, REPS: o.reps ?? 1, SEEDS: 120000, BASE: (o.base ?? 0) + SEED % 1000, ENC: o.enc ?? 0 }, sim: { num: Math.ceil(num / 8) }, inv: ['Sound'] }, handler: o.handler ?? 'prog', opts: o.opts, timeMs: o.timeMs, unique: true });
const vec = (cls, forms, extra) => ({ tlc: { module: 'VecGen', consts: { CLASS: cls, FORMS: forms, EXTRA: extra, BASE: SEED % 1000 }, inv: ['Fine'] }, handler: 'prog', chunk: 2 });
const ladder = (cls, per) => ({ tlc: { module: 'Ladder', consts: { CLASS: cls, PER: per, SIGN: 1, BASE: SEED % 1000 }, inv: ['Fine'] }, handler: 'prog', chunk: 4 });
// every pair of instructions, one handing its result to the other
const pairs = (forms, share) => ({ tlc: { module: 'Pairs', consts: { FORMS: forms, SHARE: share, BASE: SEED % 1000 }, inv: ['Fine'] }, handler: 'prog', chunk: 4 });
const size = (tier, q, t) => tier === 'thorough' ? t : q;
const TOPS = ['main', 'nowasi', 'callee', 'start', 'deep', 'straight'];
const shape = (depth, sample, opts) => ({ tlc: { module: 'Shape', consts: { DEPTH: depth, SAMPLE: sample, TOPS, BASE: SEED % 1000 }, inv: ['Steady'] }, handler: 'shape', opts, chunk: 1 });
const hist = (n, ops) => ({ tlc: { module: 'MemHist', consts: { OPS: ops, SEEDS: n, BASE: SEED % 1000 }, inv: ['Inside'] }, handler: 'hist', chunk: 4 });
const seqs = (cls, len, tail, share) => ({ tlc: { module: 'Seqs', consts: { CLASS: cls, LEN: len, TAIL: tail, SHARE: share, BASE: SEED % 1000 }, inv: ['Fine'] }, handler: 'prog', chunk: 2 });
const deep = (n, levels, opts) => ({ tlc: { module: 'Deep', consts: { COUNT: n, LEVELS: levels, BASE: SEED % 1000 + (opts.ck ? 500 : 0) + (opts.chain ? 250 : 0) }, inv: ['Fine'], heap: '6g' }, handler: 'deep', opts, chunk: 1 });
const wasi = (n, calls, base, opts) => ({ tlc: { module: 'Wasi', consts: { COUNT: n, CALLS: calls, FOCUS: 0, BASE: base + SEED % 1000 }, inv: ['Sane'] }, handler: 'wasi', opts, chunk: 4 });
// sizes around every border of an index width, and well beyond
const SIZES = [100, 127, 128, 129, 255, 256, 257, 1000, 4096, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 100000, 130000, 300000, 4194304, 16777215, 16777216, 33554433, 67108864];
const KINDS = ['pend', 'local', 'wide', 'nest', 'brtab', 'long', 'many', 'funcs', 'types', 'imports', 'globals', 'datas', 'bigdata', 'elems', 'slots', 'tables', 'pages', 'moff', 'rec', 'rounds', 'exports', 'customs', 'fill', 'drops', 'regrow'];
const big = (kinds, variants, share, opts = {}, sizes = SIZES) => ({ tlc: { module: 'Big', consts: { KINDS: kinds, SMALL: [1, 2, 3, 5, 8], SIZES: sizes, VARIANTS: variants, SHARE: share, BASE: SEED % 1000 }, inv: ['Agree'] }, handler: 'big', opts, chunk: 1 });
const BIGMS = 120000;
export const checks = {
  P01: { jobs: t => [vec('int', size(t, 4, 24), size(t, 4, 20)), ladder('int', size(t, 10, 80))] },
  P02: { jobs: t => [vec('float', size(t, 3, 16), size(t, 3, 16)), ladder('float', size(t, 10, 80))] },
  P03: { jobs: t => [vec('cvt', size(t, 8, 48), size(t, 12, 100)), ladder('cvt', size(t, 12, 80))] },
  P04: { limitMs: BIGMS, jobs: t => [gen('ctl', size(t, 6000, 120000)), seqs('ctl0', size(t, 5, 7), 3, size(t, 1, 12)), seqs('ctl1', size(t, 5, 7), 3, size(t, 1, 6)), big(['nest', 'brtab', 'long', 'many', 'wide', 'rounds'], size(t, 2, 10), 1)] },
  P05: { limitMs: BIGMS, jobs: t => [gen('expr', size(t, 6000, 120000)), seqs('i32', size(t, 4, 6), 2, size(t, 1, 8)), seqs('mix', size(t, 4, 6), 2, size(t, 1, 8)), big(['pend', 'local', 'long'], size(t, 2, 10), 1), pairs(size(t, 1, 6), 1)] },
  P06: { limitMs: BIGMS, jobs: t => [gen('call', size(t, 4500, 120000)), seqs('call', size(t, 4, 6), 2, size(t, 1, 4)), deep(size(t, 16, 300), size(t, 1600, 6000), {}), big(['rec', 'wide', 'funcs', 'imports', 'local'], size(t, 2, 10), 1)] },
  P07: { limitMs: BIGMS, jobs: t => [gen('calli', size(t, 8000, 120000)), big(['funcs', 'types', 'elems', 'tables', 'slots'], size(t, 2, 10), size(t, 2, 1))] },
  P08: { limitMs: BIGMS, jobs: t => [gen('mem', size(t, 6000, 120000)), seqs('mem', size(t, 5, 6), 2, size(t, 1, 3)), big(['moff'], size(t, 4, 20), 1)] },
  P09: { limitMs: BIGMS, jobs: t => [gen('bulk', size(t, 5500, 120000)), hist(size(t, 500, 10000), size(t, 12, 16)), big(['pages', 'bigdata', 'fill', 'datas', 'drops', 'regrow'], size(t, 2, 10), 1)] },
  P10: { limitMs: BIGMS, jobs: t => [gen('init', size(t, 8000, 120000)), big(['funcs', 'globals', 'datas', 'bigdata', 'elems', 'imports', 'tables', 'pages'], size(t, 2, 10), size(t, 2, 1))] },
  P11: { jobs: t => [gen('trap', size(t, 8000, 120000))] },
  P12: { limitMs: BIGMS, jobs: t => [gen('all', size(t, 1600, 20000), { handler: 'mig', opts: { phases: size(t, 12, 60) } }), deep(size(t, 12, 200), size(t, 1200, 5000), { ck: size(t, 4, 12) }), big(KINDS, 1, size(t, 3, 1), { ck: size(t, 2, 8) })] },
  P13: { jobs: t => [gen('all', size(t, 400, 6000), { handler: 'mig', reps: 24, steps: 20000, opts: { chain: true } }), deep(size(t, 10, 150), size(t, 1200, 4000), { ck: 2, chain: size(t, 6, 20) })] },
  P14: { limitMs: BIGMS, jobs: t => [shape(1, size(t, 300, 4000), { what: 'delay', instrs: size(t, 20000, 60000), straight: 9000, bound: 3000 }), shape(1, size(t, 40, 600), { what: 'delay', instrs: size(t, 800000, 5000000), straight: 9000, bound: 3000, once: true }), big(['rounds', 'rec', 'long'], size(t, 2, 10), 1, { looks: 1 / 500, ck: 1 })] },
  P15: {
    traces: { module: 'CkptTrace', spec: 'TraceSpec', consts: { MAXL: 1, LOOKS: 1, NOPS: 1, MAXF: 1, MAXR: 1 }, of: 'Ckpt' },
    jobs: t => [{ tlc: { module: 'CkptGuest', inv: ['Ends'] }, collect: 'guests' },
      { tlc: { module: 'Ckpt', consts: { MAXL: size(t, 2, 3), LOOKS: size(t, 2, 3), NOPS: 32, MAXF: size(t, 1, 2), MAXR: 2 }, inv: ['Safe'], props: ['Kept'], heap: '8g' }, handler: 'ckpt', use: true, unique: true, chunk: 20, opts: { salt: SEED, every: t === 'thorough' } }] },
  P16: {
    jobs: t => [{ tlc: { module: 'CkptGuest', inv: ['Ends'] }, collect: 'guests' },
      { tlc: { module: 'Damage', consts: { BYTES: size(t, 1500, 6000), GUESTS: [1, 2, 3, 4], LOOKS: size(t, 3, 5), VARIANTS: [1, 2, 3, 4, 5, 6, 7, 8, 9, 10], FINE: size(t, [4], [1, 2, 3, 4]), PADS: size(t, [3000, 150000], [3000, 70000, 150000, 1000000]) }, inv: ['OnlyWhole'] }, handler: 'damage', use: true, chunk: 40, opts: { both: t === 'thorough' } }] },
  P17: { jobs: t => [wasi(size(t, 5000, 40000), size(t, 4, 6), 0)] },
  P18: { jobs: t => [...[[false, 5, 7], [true, 3, 4]].map(([wide, q, l]) => ({ tlc: { module: 'Args', consts: { LENGTH: size(t, q, l), WIDE: wide }, inv: ['Kept'] }, handler: 'cli', chunk: 40 })),
    ...[['param', 2500, 60000], ['export', 1200, 20000], ['bad', 2400, 40000]].map(([k, q, l]) => ({ tlc: { module: 'Cli', consts: { KIND: k, COUNT: size(t, q, l), BASE: SEED % 1000 }, inv: ['Fine'] }, handler: 'cli', chunk: 10 }))] },
  P19: { limitMs: BIGMS, jobs: t => [gen('enc', size(t, 2400, 60000), { enc: 2, handler: 'enc' }), big(['customs', 'types', 'exports', 'globals', 'brtab', 'datas', 'long', 'moff'], size(t, 2, 10), size(t, 2, 1))] },
  P20: { jobs: t => [gen('all', size(t, 4000, 120000), { opts: { log: true } }), gen('all', size(t, 350, 8000), { handler: 'both', reps: 16, steps: 20000, base: 90000, opts: { reps: size(t, 4, 12) } }),
    wasi(size(t, 1500, 20000), size(t, 5, 7), 300, { both: true }), shape(1, size(t, 60, 2000), { what: 'delay', instrs: size(t, 12000, 40000), straight: 6000, bound: 3000 }), deep(size(t, 6, 60), size(t, 1000, 3000), { ck: 2 })] },
  P21: { limitMs: BIGMS, jobs: t => [gen('ref', size(t, 8000, 120000)), big(['slots', 'tables', 'elems', 'pend'], size(t, 2, 10), 1)] },
  P23: { limitMs: BIGMS, jobs: t => [big(KINDS, size(t, 2, 20), 1)] },
  P22: { limitMs: 120000, jobs: t => [shape(1, size(t, 100, 4000), { what: 'keep', instrs: size(t, 500000, 3000000), slack: 65536, ckslack: 8192, probes: 3 })] },
};
