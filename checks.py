# What each check encodes. One entry per property: cases = (harness, real sources, parameter sets per tier).
COMMON_ASSUMPTIONS = [
 'the real sources are compiled with clang 18 to LLVM IR (-O1, gnu++98) and executed symbolically by engine/ with z3; libc/libstdc++ parts outside the IR are modelled in rt/ and shim/',
 'every reported counterexample and a sample of passing paths is replayed on a native g++/ASan+UBSan build of the same harness and sources',
 'memory is sequentially consistent; allocation never fails',
]
PROPS = {}
import os
def case(name, harness, srcs, q, t=None, **k): return dict(name=name, harness=harness, srcs=srcs, quick=q, thorough=q if t is None else t, **k)
def P(pid, cases, assumptions=(), level='model_checking'): PROPS[pid] = dict(cases=cases, assumptions=list(assumptions), level=level)

# ------------------------------------------------------------------ string functions
SF = ['lib/strfunc.cpp']
def sf(name, q, t=None, **k): return case(name, 'h_strfunc.cpp', SF, q, t, **k)
P('P01', [
  sf('munge', [dict(mode=0,n=n) for n in (1,4)], [dict(mode=0,n=n) for n in (1,2,4,6)], bound='names of exactly n arbitrary bytes'),
  sf('strip', [dict(mode=2,n=5)], [dict(mode=2,n=8)], bound='names of n arbitrary bytes'),
  sf('setname', [dict(mode=15,n=3)], [dict(mode=15,n=5)], bound='names of n arbitrary bytes'),
  sf('paths', [dict(mode=14,n=2)], [dict(mode=14,n=4)], bound='two paths of up to n arbitrary bytes'),
  sf('prom', [dict(mode=3,n=4)], [dict(mode=3,n=6)], bound='names of n arbitrary bytes'),
])
P('P02', [sf('ctrs', [dict(mode=1,n=n) for n in (3,4)], [dict(mode=1,n=n) for n in (1,2,3,4,5,6,7)], bound='names of n arbitrary bytes')])
P('P03', [
  sf('print', [dict(mode=4,max=400), dict(mode=4,min=86300,max=86500), dict(mode=4,min=31535990,max=31536010), dict(mode=4,min=3590,max=3700)],
              [dict(mode=4,min=i*500,max=i*500+499) for i in range(16)] + [dict(mode=4,min=b-100,max=b+100) for b in (3600,7200,86400,172800,604800,31536000,63072000)], bound='every number of seconds in [min,max]'),
  sf('parse', [dict(mode=5,n=n) for n in (1,2,3)], [dict(mode=5,n=n) for n in (1,2,3,4,5)], bound='texts of n arbitrary bytes'),
])
P('P04', [
  sf('sqlq', [dict(mode=6,n=n) for n in (1,2)], [dict(mode=6,n=n) for n in (1,2,3)], bound='values of n arbitrary bytes'),
  sf('jsq', [dict(mode=7,n=n) for n in (1,2)], [dict(mode=7,n=n) for n in (1,2,3)], bound='values of n arbitrary bytes'),
  sf('json', [dict(mode=8,n=n) for n in (1,2)], [dict(mode=8,n=n) for n in (1,2,3)], bound='values of n arbitrary bytes'),
])
P('P05', [sf('glob', [dict(mode=9,np=a,ns=b) for a,b in ((0,1),(2,2),(3,3),(4,2))], [dict(mode=9,np=a,ns=b) for a,b in ((0,1),(1,3),(2,4),(3,4),(3,5),(4,4),(5,4),(5,2))], bound='patterns of np characters from "*?.ab", names of ns characters from ".abc"')])
P('P06', [
  sf('url', [dict(mode=10,n=n) for n in (1,2,3)], [dict(mode=10,n=n) for n in (1,2,3,4,5)], bound='texts of n arbitrary bytes'),
  sf('query', [dict(mode=11,which=i) for i in range(4)], [dict(mode=11,which=i,pairs=3) for i in range(6)], bound='2 (3) key=value pairs; one string any byte written as %XX, the others two letters or dots'),
])
P('P07', [
  sf('split', [dict(mode=12,n=n) for n in (0,1,4)], [dict(mode=12,n=n) for n in (0,1,2,3,4,5)], bound='texts of n arbitrary bytes'),
  sf('splitn', [dict(mode=13,n=5,k=k) for k in (2,3,4,5,6)] + [dict(mode=13,n=0,k=3)], [dict(mode=13,n=n,k=k) for k in (2,3,4,5,6) for n in (0,1,7)], bound='texts of n arbitrary bytes, k fields'),
])
# ------------------------------------------------------------------ buckets
BK = ['lib/Bucket.cpp', 'lib/strfunc.cpp']
def bk(name, q, t=None, **k): return case(name, 'h_bucket.cpp', BK, q, t, **k)
P('P08', [bk('m%d' % m, [dict(mode=m)], bound='symbolic buckets, integer-valued samples up to 1000, see harness') for m in (0,1,2,3,6)]
  + [bk('avg', [dict(mode=4,count=n) for n in (1,3,4)], [dict(mode=4,count=n) for n in (1,2,3,4,5,7,10,60)], bound='any sum, the given count'),
     bk('sdev', [dict(mode=5,part=0), dict(mode=5,part=1)]), bk('extreme', [dict(mode=9,k=2)], [dict(mode=9,k=3)], bound='sums of k buckets of values up to 1e308, finite or not'),
     bk('exp', [dict(mode=7,l=i) for i in range(4)], bound='blend weights 0, 1/4, 1/2, 1')])
# ------------------------------------------------------------------ ring files
ST = ['lib/StatFile.cpp', 'lib/Mmap.cpp', 'lib/Bucket.cpp', 'lib/Header.cpp', 'lib/istattime.cpp', 'lib/strfunc.cpp']
FS_ASSUME = ['files live in the in-memory file system of rt/fs.cpp (POSIX open/read/write/seek/truncate/fallocate semantics; offsets and lengths concrete per path)']
def st(name, q, t=None, **k): return case(name, 'h_statfile.cpp', ST, q, t, rt=['rt/log.cpp'], fs=True, **k)
P('P09', [
  st('record', [dict(mode=0,s0=i) for i in range(16)], bound='2 records: slot pairs from 16x16 boundary positions, any offset in the interval, symbolic sum/sumsq/min/max/count; then flush/close/reopen'),
  st('aggregate', [dict(mode=0,flags=4,s0=i) for i in (0,3,8,13)], [dict(mode=0,flags=4,s0=i) for i in range(16)], bound='as record, counter-aggregate files'),
  st('collated', [dict(mode=0,flags=1,s0=i) for i in (0,3,8,13)], [dict(mode=0,flags=1,s0=i) for i in range(16)], bound='as record, collated files'),
  st('iv', [dict(mode=0,iv=60,s0=i) for i in (4,10)], [dict(mode=0,iv=300,s0=i) for i in range(0,16,2)], bound='as record, other interval'),
  st('three', [], [dict(mode=0,k=3,rel=1,s0=i) for i in (0,2,4,9,13)], bound='3 records, later ones relative to the newest slot'),
  st('pages', [dict(mode=11,k=3)], [dict(mode=11,k=4), dict(mode=11,k=5)], bound='k records over four pages (the page cache holds three), optional flush, reopening'),
  st('raw', [dict(mode=1)], [dict(mode=1), dict(mode=1,k=3)], bound='import modes x slots, 2 (3) records'),
], FS_ASSUME)
P('P10', [
  st('arith', [dict(mode=2)], [dict(mode=2,iv=i) for i in (10,60,300)], bound='every time within 8192 s of the creation time'),
  st('range', [dict(mode=3)], bound='2 recorded slots, start/count pairs from 14x10 boundary values'),
  st('create', [dict(mode=8), dict(mode=8,trail=1)], bound='any sample count 0..3000, any start second, 2 intervals'),
  st('twoopen', [dict(mode=7)]), st('readonly', [dict(mode=6)]),
], FS_ASSUME)
P('P11', [
  st('foreign', [dict(mode=4)], bound='9 sizes; any wrong byte at any magic position or any newer version; 3 ways of opening'),
  st('header', [dict(mode=5), dict(mode=5,flags=2)], bound='valid magic with boundary values of interval, page size, page count, newest slot, file size'),
], FS_ASSUME)
P('P12', [st('crash', [dict(mode=9)], bound='crash before each of the first 16 disk changes of create/record/flush/record/flush/close'),
          st('fail', [dict(mode=9,fail=1)], bound='disk-full failure of each of the first 16 disk changes'),
          st('pages', [dict(mode=9,many=1,ops=22)], [dict(mode=9,many=1,ops=40)], bound='as crash, records on up to four pages before the flush')], FS_ASSUME)
P('P13', [st('trail', [dict(mode=10,k=4,season=5120), dict(mode=10,k=4,season=5120,samples=1024), dict(mode=10,k=4,season=3600)],
          [dict(mode=10,k=5,season=5120), dict(mode=10,k=5,season=5120,samples=1024), dict(mode=10,k=5,season=3600)], bound='k records at symbolic slots (same, next, one season on, N-1, N, one page on), symbolic values, then 3 flushes')], FS_ASSUME)
# ------------------------------------------------------------------ counters
SC = ST + ['lib/RecordStat.cpp', 'lib/Env.cpp', 'lib/Atomic.cpp', 'daemon/StatCounter.cpp', 'daemon/StatCounterFactory.cpp', 'daemon/Retention.cpp', 'daemon/LoopbackCounter.cpp', 'daemon/Debug.cpp', 'daemon/Logs.cpp', 'daemon/Signal.cpp']
def sc(name, q, t=None, **k): return case(name, 'h_statcounter.cpp', SC, q, t, rt=['rt/log.cpp'], fs=True, asio=True, **k)
P('P14', [sc('collated', [dict(mode=0,k=2)] + [dict(mode=0,k=3,f0=2,a1=i) for i in range(4)], [dict(mode=0,k=3,f0=f,a1=i) for f in (0,2,4,6) for i in range(4)], bound='k events/flushes; event interval -2..+9 intervals from now, any second in it, any value +-1e6; clock advances 0, 1, 5 or 12 intervals'),
          sc('restart', [dict(mode=4,k=3,f0=2,a1=i) for i in (0,1,2)], [dict(mode=4,k=3,f0=f,a1=i) for f in (1,2,3) for i in range(4)], bound='as collated, with the counter closed and reopened in between')], FS_ASSUME)
P('P15', [sc('gauges', [dict(mode=1,k=2)], [dict(mode=1,k=2)] + [dict(mode=1,k=3,w0=i) for i in (1,2,5,7)], bound='k samples at 10 boundary times, symbolic value/sum/sum of squares, optional restart, three levels')], FS_ASSUME)
P('P16', [sc('normalize', [dict(mode=2)], bound='6 intervals x 6 limits x 5 bases x 7 lengths, 21x21 offsets symbolic'),
          sc('select', [dict(mode=3)], bound='2 samples at 4 slots, symbolic values; 11 starts x 7 lengths x 5 limits'), sc('selectcoll', [dict(mode=3,coll=1)], bound='as select, collated')], FS_ASSUME)
# ------------------------------------------------------------------ configuration
RT = ['daemon/Retention.cpp', 'daemon/Logs.cpp', 'lib/RecordStat.cpp', 'lib/strfunc.cpp', 'lib/istattime.cpp', 'lib/Atomic.cpp']
def rp(name, q, t=None, **k): return case(name, 'h_retention.cpp', RT, q, t, rt=['rt/log.cpp'], asio=True, **k)
P('P17', [rp('parts', [dict(mode=1,k=1), dict(mode=1,k=1,lam=0), dict(mode=1,k=2), dict(mode=1,k=4,few=1)], [dict(mode=1,k=4,few=1), dict(mode=1,k=1), dict(mode=1,k=1,lam=0), dict(mode=1,k=2), dict(mode=1,k=3)], bound='one entry with any digits, 4 units, optional name, 13 weight texts; 2 (3) entries with 4 numbers and 3 units; 4 entries with 2 numbers'),
          rp('bytes', [dict(mode=0,n=n) for n in (0,3,5)], [dict(mode=0,n=n) for n in (0,1,2,3,4,5,6)], bound='texts of n arbitrary bytes')])
# ------------------------------------------------------------------ the server
SV = ['daemon/StatServer.cpp', 'daemon/EagerConnection.cpp', 'daemon/EagerConnectionFactory.cpp', 'daemon/Bucketizer.cpp', 'daemon/Blacklist.cpp', 'daemon/LoopbackCounter.cpp', 'daemon/Debug.cpp', 'daemon/Logs.cpp', 'daemon/Signal.cpp', 'daemon/StatCounter.cpp', 'daemon/Retention.cpp', 'lib/RecordStat.cpp', 'lib/Env.cpp', 'lib/Atomic.cpp', 'lib/test.cpp'] + ST
def sv(name, q, t=None, **k): return case(name, 'h_server.cpp', SV, q, t, rt=['rt/log.cpp'], fs=True, asio=True, **k)
P('P18', [sv('line', [dict(mode=0,nf=n,pos=p) for n in (1,2,3,7) for p in range(n)] + [dict(mode=0,nf=5,pos=0), dict(mode=0,nf=8,pos=0), dict(mode=0,nf=8,pos=7), dict(mode=0,nf=9,pos=8)], bound='nf fields; one field takes every text of its table, 4 separators, prefixes and line ends'),
          sv('bytes', [dict(mode=1,n=n) for n in (0,4)], [dict(mode=1,n=n) for n in (0,1,2,3,4,5,6)], bound='lines of n characters from "space tab a 1 - . ^ CR"')])
P('P19', [sv('tcp', [dict(mode=2,k=2,cuts=1), dict(mode=2,k=1), dict(mode=2,k=1,two=1)], [dict(mode=2,k=2,l0=i) for i in range(12)] + [dict(mode=2,k=1,two=1), dict(mode=2,k=3,cuts=1,l0=4), dict(mode=2,k=3,cuts=1,l0=1)], bound='k lines of 12, unfinished tail or not, cut at every place into up to 3 segments'),
          sv('udp', [dict(mode=3,k=2)], [dict(mode=3,k=2), dict(mode=3,k=3)], bound='packets of up to k lines of 12, broken packets, errors')])
EC = ['daemon/EagerConnection.cpp', 'daemon/LoopbackCounter.cpp', 'daemon/Debug.cpp', 'daemon/Logs.cpp', 'daemon/Signal.cpp', 'daemon/StatCounter.cpp', 'daemon/Retention.cpp', 'lib/RecordStat.cpp', 'lib/Env.cpp', 'lib/Atomic.cpp'] + ST
def ec(name, q, t=None, **k): return case(name, 'h_eager.cpp', EC, q, t, rt=['rt/log.cpp'], fs=True, asio=True, **k)
P('P20', [ec('outgoing', [dict(mode=0,k=4,first=f) for f in (0,1,2,6)], [dict(mode=0,k=6,first=f) for f in (0,1,2,6)], bound='k steps of write, connected, refused, written, write failed, peer gone, retry, handlers'),
          ec('close', [dict(mode=0,k=3,close=1)], [dict(mode=0,k=5,close=1)], bound='as outgoing, then close'),
          ec('patience', [dict(mode=3)], [dict(mode=3,k=60)], bound='k (24) failures of three kinds, alternating or not'),
          ec('prune', [dict(mode=1,k=5,len=6)], [dict(mode=1,k=6)], bound='k lines of 2..10 bytes, limit 24'),
          ec('threads', [dict(mode=2,n=1), dict(mode=2,n=1,per=2)], [dict(mode=2,n=1), dict(mode=2,n=1,per=3), dict(mode=2,n=2,pre=2)], bound='n writing threads with per lines each and the handler thread, every schedule with at most pre (3) preemptions')])
P('P21', [sv('forward', [dict(mode=4,k=1), dict(mode=4,k=1,agents=2), dict(mode=4,k=2,vals=2,sec=1,when=0), dict(mode=4,k=2,vals=2,sec=1,when=1), dict(mode=4,k=2,vals=2,sec=1,when=2)], [dict(mode=4,k=2,sec=i,agents=a,when=w) for i in range(3) for a in (1,2) for w in range(3)], bound='k records of 2 counters, 4 values, 3 forms, 9 time offsets; 3 connection times; any of them in a later round'),
          sv('flush', [dict(mode=4,k=1,flush=1)], bound='as forward, with a flush request'),
          sv('flushes', [dict(mode=7)], bound='two agents each unconnected, idle, busy or given up, 1 or 2 counters, both orders of events'),
          sv('failover', [dict(mode=5)], bound='two agents, one unreachable for 6 rounds')])
# ------------------------------------------------------------------ HTTP
HT = ['daemon/HttpServer.cpp', 'daemon/RequestInFlight.cpp', 'daemon/Settings.cpp', 'daemon/PromExporter.cpp', 'daemon/PromServer.cpp', 'daemon/AllKeys.cpp', 'lib/jsoncpp.cpp'] + SV
def ht(name, q, t=None, **k): return case(name, 'h_http.cpp', HT, q, t, rt=['rt/log.cpp'], fs=True, asio=True, **k)
P('P22', [ht('bytes', [dict(mode=0,n=2 if w != 3 else 1,where=w) for w in range(8)], [dict(mode=0,n=3,where=w) for w in range(8) if w != 3] + [dict(mode=0,n=2,where=3)], bound='n arbitrary bytes at 8 places of a request'),
          ht('requests', [dict(mode=1), dict(mode=1,cuts=2,lo=7,cnt=1)], [dict(mode=1)] + [dict(mode=1,cuts=2,lo=i,cnt=1) for i in range(25)], bound='25 requests cut at every place (every two places)'),
          ht('leaving', [dict(mode=1,end=e) for e in (1,2,3)], bound='25 requests, the client leaving, failing or not reading the reply at every place'),
          ht('bodies', [dict(mode=6,n=2)], [dict(mode=6,n=3)], bound='32 JSON bodies, n arbitrary bytes as body or in a key, 300000 nested arrays')])
P('P23', [ht('encodings', [dict(mode=2,n=2)], [dict(mode=2,n=3,urls=1), dict(mode=2,n=2)], bound='up to n codings of 5 names and 6 weights, 4 kinds of reply'), ht('odd', [dict(mode=3,n=2)], [dict(mode=3,n=3)], bound='18 malformed headers, n arbitrary bytes as header or as parameter')])
P('P24', [ht('multiget', [dict(mode=5,n=2)], [dict(mode=5,n=3)], bound='up to n keys of 11'), ht('listing', [dict(mode=7,n=1)], [dict(mode=7,n=2)], bound='patterns of n arbitrary bytes'), ht('agents', [dict(mode=8,n=1)], [dict(mode=8,n=2)], bound='up to 2 agents, texts of n arbitrary bytes'), ht('single', [dict(mode=9)], bound='7 start and end times, 3 formats, 5 counters')])
P('P25', [ht('files', [dict(mode=4,n=4)], [dict(mode=4,n=5,letters=5)], bound='names of up to n characters of . / a A (%)'), ht('bytes', [dict(mode=4,arb=1,n=n) for n in (1,2,3)], [dict(mode=4,arb=1,n=n) for n in (1,2,3,4)], bound='names of n arbitrary bytes but blanks')])
# ------------------------------------------------------------------ the store
SS = ['daemon/StatStore.cpp', 'daemon/AllKeys.cpp'] + SC
def ss(name, q, t=None, **k): return case(name, 'h_store.cpp', SS, q, t, rt=['rt/log.cpp'], fs=True, asio=True, **k)
AT = ['-include', os.path.dirname(os.path.abspath(__file__)) + '/rt/atomics.h']
P('P26', [ss('sequence', [dict(mode=0,steps=3,agg=a,recursive=r) for a, r in ((0,1),(2,1),(0,0))] + [dict(mode=0,steps=2,agg=1,recursive=0)], [dict(mode=0,steps=4,agg=a,recursive=r,first=f) for a in (0,1,2) for r in (1,0) for f in range(9)], bound='steps operations of 5 records, 3 deletions, a flush of everything; aggregation over agg levels'),
          ss('names', [dict(mode=3,len=3,agg=1,recursive=1), dict(mode=3,len=2,agg=0,recursive=0), dict(mode=3,len=0,arb=1,agg=1)], [dict(mode=3,len=4,agg=a,recursive=r) for a in (0,2) for r in (1,0)] + [dict(mode=3,len=0,arb=1,agg=a,recursive=r) for a in (0,1) for r in (1,0)], bound='names of len of 9 characters, and any byte at 5 places'),
          ss('threads', [dict(mode=6,sc=sc) for sc in (0,3,4,5)], [dict(mode=6,sc=sc,pre=3) for sc in (0,3,4,5)], flags=AT, tmax_thorough=700, bound='two or three threads, every schedule with at most 2 (pre) preemptions at locks, atomics and posts')])
P('P27', [ss('overlap', [dict(mode=1,steps=4,agg=1), dict(mode=1,steps=7,script=1543)], [dict(mode=1,steps=6,script=s,agg=1) for s in (5,4,3)] + [dict(mode=1,steps=7,script=s) for s in (54,34,543,1543,543)], tmax_thorough=700, bound='steps operations or handlers in any order, the first ones from script'),
          ss('burst', [dict(mode=7,n=8)], [dict(mode=7,n=16)], bound='up to n deletions at once'),
          ss('backup', [dict(mode=8), dict(mode=8,fault=1), dict(mode=8,fault=2)], bound='5 real counters, one or all deleted, each of the first 12 file operations failing'),
          ss('threads', [dict(mode=6,sc=sc) for sc in (1,2,6,7,8)] + [dict(mode=6,sc=7,ev=1,pre=1)], [dict(mode=6,sc=sc,pre=3) for sc in (1,2,6,8)] + [dict(mode=6,sc=7), dict(mode=6,sc=7,ev=1)], flags=AT, tmax_thorough=700, bound='three threads, every schedule with at most 2 (pre) preemptions at locks, atomics and posts')])
P('P28', [ss('restart', [dict(mode=4,recursive=1), dict(mode=4,recursive=0)], bound='all sets of 7 directories with or without files'),
          ss('data', [{'mode': 8, 'del': 5}], bound='5 real counters, data of any value'),
          ss('flushing', [dict(mode=2,counters=c,flushms=m) for c, m in ((3,10000),(1,30000),(6,4000))], [dict(mode=2,counters=c,flushms=m) for c in (1,2,3,7,12) for m in (3000,10000,60000)], bound='counters counters, flush interval flushms, a deletion at any second of the first 20'),
          ss('pruning', [dict(mode=5)], bound='3 uses of the store over 3 rounds of pruning')])
# ------------------------------------------------------------------ settings
SE = ['daemon/Settings.cpp', 'daemon/LoopbackCounter.cpp', 'daemon/Debug.cpp', 'daemon/Logs.cpp', 'daemon/Signal.cpp', 'lib/strfunc.cpp', 'lib/istattime.cpp', 'lib/Env.cpp', 'lib/Atomic.cpp', 'lib/RecordStat.cpp', 'daemon/StatCounter.cpp', 'daemon/Retention.cpp', 'lib/StatFile.cpp', 'lib/Mmap.cpp', 'lib/Bucket.cpp', 'lib/Header.cpp']
def se(name, q, t=None, **k): return case(name, 'h_settings.cpp', SE, q, t, rt=['rt/log.cpp'], fs=True, asio=True, flags=['-DSYM_FSTREAM'], **k)
P('P29', [se('roundtrip', [dict(mode=0,n=n) for n in (0,1,2)], [dict(mode=0,n=n) for n in (0,1,2,3)], bound='values of n arbitrary bytes'),
          se('sequence', [dict(mode=1,steps=3)], [dict(mode=1,steps=4,first=i) for i in range(7)], bound='steps operations: set 2 keys to 3 values, flush, flush one, save timer, open again, restart'),
          se('crash', [dict(mode=2)], bound='crash before each of the first 24 disk changes of a save'),
          se('fail', [dict(mode=2,fail=1), dict(mode=2,fail=2)], bound='each of the first 24 disk changes of a save failing'),
          se('byhand', [dict(mode=3,n=4)], [dict(mode=3,n=5)], bound='n characters from =, #, LF, CR, space, k, a'),
          se('threads', [dict(mode=6), dict(mode=6,sc=1), dict(mode=6,two=1,one=1)], [dict(mode=6,sc=c,two=w,twice=x,pre=3) for c in (0,1) for w in (0,1) for x in (0,1)], bound='three threads setting, opening, flushing, saving; every schedule with at most 2 (pre) preemptions at locks'),
          se('edited', [dict(mode=4)]), se('keys', [dict(mode=5,n=2)], [dict(mode=5,n=3)], bound='keys of n arbitrary bytes')])
# ------------------------------------------------------------------ Prometheus
P('P30', [ht('page', [dict(mode=20,n=2)], [dict(mode=20,n=3,lo=i,hi=i+1) for i in range(18)], bound='all sequences of n lines from 18'),
          ht('bytes', [dict(mode=21,n=1), dict(mode=21,n=2,few=1)], [dict(mode=21,n=1), dict(mode=21,n=2), dict(mode=21,n=3,few=1)], bound='names and label values with n arbitrary bytes, or (few) n of 17 characters'),
          ht('time', [dict(mode=22)], bound='6 ages, 8 waits'), ht('ages', [dict(mode=24,k=2)], [dict(mode=24,k=3)], bound='k gauge and k counter samples with any times in the last 100 s / 25 h and counter values of at most 10, or at most 10 below 2^32'), ht('http', [dict(mode=23)], bound='7 requests cut anywhere, completed, ended or broken')])
