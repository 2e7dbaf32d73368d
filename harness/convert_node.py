# The point type converter, driven from its real main() (or its class) on stand-ins for rclpy and sensor_msgs.
# Same options and output as the C++ harnesses (include/vh.hpp).
import array
import hashlib
import json
import math
import os
import random
import struct
import sys
import traceback
import types

sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')


class Violation(Exception):
    def __init__(self, key, msg):
        super().__init__(msg)
        self.key, self.msg = key, msg


counters = {}


def count(name, n=1):
    counters[name] = counters.get(name, 0) + n


def check(cond, key, msg, *args):
    count('oracle_checks')
    if not cond:
        raise Violation(key, msg % args)


# ------------------------------------------------------------ stand-ins for ROS 2
def message(name, defaults, types_):
    """A message class with the type checks of rosidl's Python messages."""
    class M:
        __slots__ = ['_' + k for k in defaults]

        def __init__(self, **kw):
            for k in kw:
                assert k in defaults, 'Invalid arguments passed to constructor: %s' % k
            for k, v in defaults.items():
                setattr(self, k, kw.get(k, v()))
    for k in defaults:
        def make(k):
            def get(self):
                return getattr(self, '_' + k)

            def put(self, v):
                assert types_[k](v), 'the field %s of %s does not take %r' % (k, name, type(v))
                if k == 'data' and not (isinstance(v, array.array) and v.typecode == 'B'):
                    v = array.array('B', v)
                setattr(self, '_' + k, v)
            return property(get, put)
        setattr(M, k, make(k))
    M.__name__ = name
    return M


def is_uint(bits):
    return lambda v: isinstance(v, int) and not isinstance(v, bool) and 0 <= v < 2 ** bits


def is_bytes(v):
    return (isinstance(v, array.array) and v.typecode == 'B') or (
        not isinstance(v, (str, array.array)) and all(isinstance(b, int) and 0 <= b < 256 for b in v))


Time = message('Time', {'sec': int, 'nanosec': int}, {'sec': lambda v: isinstance(v, int), 'nanosec': is_uint(32)})
Header = message('Header', {'stamp': Time, 'frame_id': str},
                 {'stamp': lambda v: isinstance(v, Time), 'frame_id': lambda v: isinstance(v, str)})
PointField = message('PointField', {'name': str, 'offset': int, 'datatype': int, 'count': int},
                     {'name': lambda v: isinstance(v, str), 'offset': is_uint(32), 'datatype': is_uint(8), 'count': is_uint(32)})
for _k, _n in enumerate(['INT8', 'UINT8', 'INT16', 'UINT16', 'INT32', 'UINT32', 'FLOAT32', 'FLOAT64']):
    setattr(PointField, _n, _k + 1)
PointCloud2 = message(
    'PointCloud2',
    {'header': Header, 'height': int, 'width': int, 'fields': list, 'is_bigendian': bool, 'point_step': int,
     'row_step': int, 'data': lambda: array.array('B'), 'is_dense': bool},
    {'header': lambda v: isinstance(v, Header), 'height': is_uint(32), 'width': is_uint(32),
     'fields': lambda v: not isinstance(v, str) and all(isinstance(f, PointField) for f in v),
     'is_bigendian': lambda v: isinstance(v, bool), 'point_step': is_uint(32), 'row_step': is_uint(32), 'data': is_bytes,
     'is_dense': lambda v: isinstance(v, bool)})


class Bus:
    def __init__(self):
        self.subs, self.pubs, self.published, self.on_spin, self.ok = [], [], [], None, True


bus = Bus()


class Policy:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


class QoSReliabilityPolicy:
    RELIABLE, BEST_EFFORT, SYSTEM_DEFAULT = Policy('RELIABLE'), Policy('BEST_EFFORT'), Policy('RELIABLE')


class QoSHistoryPolicy:
    KEEP_ALL, KEEP_LAST, SYSTEM_DEFAULT = Policy('KEEP_ALL'), Policy('KEEP_LAST'), Policy('KEEP_LAST')


class QoSDurabilityPolicy:
    VOLATILE, TRANSIENT_LOCAL, SYSTEM_DEFAULT = Policy('VOLATILE'), Policy('TRANSIENT_LOCAL'), Policy('VOLATILE')


class QoSProfile:
    def __init__(self, depth=None, history=QoSHistoryPolicy.KEEP_LAST, reliability=QoSReliabilityPolicy.RELIABLE,
                 durability=QoSDurabilityPolicy.VOLATILE):
        self.depth, self.history, self.reliability, self.durability = depth or 10, history, reliability, durability


class Publisher:
    def __init__(self, kind, topic, qos):
        self.kind, self.topic, self.qos = kind, topic.lstrip('/'), qos

    def publish(self, msg):
        assert isinstance(msg, self.kind), 'publish() got %r' % type(msg)
        if bus.ok:
            # the message leaves the process here: what the node does to it later is not seen
            bus.published.append((self.topic, copied(msg)))


class Logger:
    def _log(self, *a, **k):
        pass
    debug = info = warn = warning = error = fatal = _log


class Node:
    def __init__(self, name, **kw):
        self.name = name

    def create_subscription(self, kind, topic, callback, qos_profile, **kw):
        bus.subs.append((kind, topic.lstrip('/'), callback, qos_profile))
        return bus.subs[-1]

    def create_publisher(self, kind, topic, qos_profile, **kw):
        bus.pubs.append(Publisher(kind, topic, qos_profile))
        return bus.pubs[-1]

    def get_logger(self):
        return Logger()

    def destroy_node(self):
        bus.subs.clear()


def copied(m):
    c = PointCloud2()
    c.header = Header(stamp=Time(sec=m.header.stamp.sec, nanosec=m.header.stamp.nanosec), frame_id=m.header.frame_id)
    c.fields = [PointField(name=f.name, offset=f.offset, datatype=f.datatype, count=f.count) for f in m.fields]
    for k in ('height', 'width', 'is_bigendian', 'point_step', 'row_step', 'is_dense'):
        setattr(c, k, getattr(m, k))
    c.data = array.array('B', m.data)
    return c


def module(name, **attrs):
    m = types.ModuleType(name)
    for k, v in attrs.items():
        setattr(m, k, v)
    sys.modules[name] = m
    if '.' in name:
        setattr(sys.modules[name.rsplit('.', 1)[0]], name.rsplit('.', 1)[1], m)
    return m


def spin(node):
    if bus.on_spin:
        bus.on_spin(node)


def shut():
    bus.ok = False


module('rclpy', init=lambda args=None, context=None: None, spin=spin, shutdown=shut, ok=lambda: bus.ok)
module('rclpy.node', Node=Node)
module('rclpy.qos', QoSProfile=QoSProfile, QoSHistoryPolicy=QoSHistoryPolicy, QoSReliabilityPolicy=QoSReliabilityPolicy,
       QoSDurabilityPolicy=QoSDurabilityPolicy, HistoryPolicy=QoSHistoryPolicy, ReliabilityPolicy=QoSReliabilityPolicy,
       DurabilityPolicy=QoSDurabilityPolicy, qos_profile_sensor_data=QoSProfile(5, reliability=QoSReliabilityPolicy.BEST_EFFORT))
module('builtin_interfaces')
module('builtin_interfaces.msg', Time=Time)
module('std_msgs')
module('std_msgs.msg', Header=Header)
module('sensor_msgs')
module('sensor_msgs.msg', PointCloud2=PointCloud2, PointField=PointField)
sys.path.insert(0, os.path.join(REPO, 'point_type_converter'))

# ------------------------------------------------------------ inputs
SIZES = {1: 1, 2: 1, 3: 2, 4: 2, 5: 4, 6: 4, 7: 4, 8: 8}
CODES = {1: 'b', 2: 'B', 3: 'h', 4: 'H', 5: 'i', 6: 'I', 7: 'f', 8: 'd'}
SPECIAL = [0x00000000, 0x80000000, 0x00000001, 0x7f7fffff, 0xff7fffff, 0x7f800000, 0xff800000, 0x7fc00000, 0x00800000,
           0x3f800000, 0x807fffff]


def random_float_bits(r):
    u = r.random()
    if u < 0.6:
        return struct.unpack('<I', struct.pack('<f', r.choice([-1, 1]) * math.exp(r.uniform(-7, 7))))[0]
    if u < 0.8:
        return r.choice(SPECIAL)
    b = r.getrandbits(32)
    if (b & 0x7f800000) == 0x7f800000 and b & 0x007fffff:
        b |= 0x00400000     # quiet: a signalling NaN may become quiet on the way
    return b


def random_layout(r):
    ring = r.choice([4, 4, 4, 2])
    intensity = r.choice([7, 7, 7, 7, 2, 4, 3])
    need = [('x', 7, 1), ('y', 7, 1), ('z', 7, 1), ('intensity', intensity, 1), ('ring', ring, 1)]
    extra = [('t', 6, 1), ('reflectivity', 4, 1), ('noise', 4, 1), ('range', 6, 1), ('time', 7, 1), ('timestamp', 8, 1), ('return_type', 2, 1),
             ('padding', 7, 1), ('normal', 7, 3), ('label', 5, 1), ('a', 1, 1), ('tag', 2, 4), ('azimuth', 3, 1), ('xx', 7, 1), ('X', 7, 1), ('', 2, 1)]
    fields = need + [e for e in extra if r.random() < r.choice([0.1, 0.4])]
    if r.random() < 0.5:
        head, tail = fields[:3], fields[3:]
        r.shuffle(tail)
        fields = head + tail
    elif r.random() < 0.5:
        r.shuffle(fields)
    gap = r.choice([0, 0, 0.3])
    at, out = 0, []
    for name, kind, n in fields:
        if r.random() < gap:
            at += r.randint(1, 9)
        out.append((name, at, kind, n))
        at += SIZES[kind] * n
    if r.random() < 0.3:
        at += r.randint(0, 20)
    listed = list(out)
    if r.random() < 0.4:
        r.shuffle(listed)
    return out, listed, at


def random_cloud(r, thorough):
    fields, listed, step = random_layout(r)
    big = r.random() < 0.5
    u = r.random()
    n = 0 if u < 0.06 else 1 if u < 0.12 else r.randint(2, 40) if u < 0.97 else r.randint(500, 5000)
    e = '>' if big else '<'
    rows, data = [], bytearray()
    zeros = r.choice([0.0, 0.1, 0.5, 1.0])
    shape = r.random()
    for _ in range(n):
        row = bytearray(r.getrandbits(8) for _ in range(step))
        v = {}
        origin = r.random() < zeros
        partly = r.random() < 0.15
        for name, off, kind, cnt in fields:
            for k in range(cnt):
                size = SIZES[kind]
                if kind == 7:
                    b = random_float_bits(r)
                    if name in 'xyz' and name:
                        if origin:
                            b = r.choice([0, 0, 0x80000000])
                        elif partly and r.random() < 0.5:
                            b = r.choice([0, 0x80000000])
                    raw = struct.pack(e + 'I', b)
                elif kind == 8:
                    raw = struct.pack(e + 'd', r.gauss(0, 100))
                    b = None
                else:
                    bits = r.getrandbits(8 * size) if r.random() < 0.8 else r.choice([0, 1, 2 ** (8 * size) - 1, 2 ** (8 * size - 1)])
                    raw = bits.to_bytes(size, 'big' if big else 'little')
                    b = struct.unpack(e + CODES[kind], raw)[0]
                row[off + k * size: off + (k + 1) * size] = raw
                if k == 0:
                    v[name] = b
        rows.append(v)
        data += row
    m = PointCloud2()
    m.header = Header(stamp=Time(sec=r.choice([0, 1, 1700000000, 2147483647]), nanosec=r.choice([0, 1, 999999999, r.randint(0, 999999999)])),
                      frame_id=r.choice(['base_link', 'lidar', '', 'a/b']))
    m.height, m.width = 1, n
    for h in (16, 4, 2):
        if n and n % h == 0 and shape < 0.4:
            m.height, m.width = h, n // h
            count('organised')
            break
    m.is_bigendian, m.point_step, m.row_step = big, step, step * m.width
    m.fields = [PointField(name=a, offset=b, datatype=c, count=d) for a, b, c, d in listed]
    m.data = array.array('B', bytes(data))
    m.is_dense = r.random() < 0.5
    kinds = {name: kind for name, _, kind, _ in fields}
    return m, rows, kinds, fields


def float_bits(v):
    return struct.unpack('<I', struct.pack('<f', v))[0]


def compare(got, sent, rows, kinds):
    want = []
    for v in rows:
        if all((v[k] & 0x7fffffff) == 0 for k in 'xyz'):
            count('origin_dropped')
            continue
        i = v['intensity'] if kinds['intensity'] == 7 else float_bits(float(v['intensity']))
        want.append((v['x'], v['y'], v['z'], i, v['ring']))
    check(got.header.frame_id == sent.header.frame_id and got.header.stamp.sec == sent.header.stamp.sec and
          got.header.stamp.nanosec == sent.header.stamp.nanosec, 'header', 'the header is %s %d.%09d', got.header.frame_id,
          got.header.stamp.sec, got.header.stamp.nanosec)
    check(got.is_bigendian is False, 'endian', 'the output is marked big-endian')
    check(got.point_step == 32, 'layout', 'the point step is %d', got.point_step)
    f = {x.name: x for x in got.fields}
    for name, off, kind in (('x', 0, 7), ('y', 4, 7), ('z', 8, 7), ('intensity', 16, 7), ('ring', 20, 4)):
        check(name in f and (f[name].offset, f[name].datatype, f[name].count) == (off, kind, 1), 'layout', 'the field %s is %s', name,
              (f[name].offset, f[name].datatype, f[name].count) if name in f else 'missing')
    for x in got.fields:
        check(1 <= x.datatype <= 8 and x.offset + SIZES[x.datatype] * max(1, x.count) <= 32, 'layout', 'the field %s does not fit in a point', x.name)
    check(len(f) == len(got.fields), 'layout', 'two output fields have the same name')
    check(got.height * got.width == len(want), 'count', '%d x %d points, expected %d of %d', got.width, got.height, len(want), len(rows))
    check(got.row_step == 32 * got.width and len(got.data) == got.row_step * got.height, 'steps', 'row step %d, %d bytes for %d x %d points',
          got.row_step, len(got.data), got.width, got.height)
    data = got.data.tobytes()
    for k, w in enumerate(want):
        x, y, z, i = struct.unpack_from('<III4xI', data, 32 * k)
        ring, = struct.unpack_from('<H', data, 32 * k + 20)
        check((x, y, z) == w[:3], 'xyz', 'point %d is %08x %08x %08x, expected %08x %08x %08x', k, x, y, z, *w[:3])
        check(i == w[3], 'intensity', 'the intensity of point %d is %08x, expected %08x', k, i, w[3])
        check(ring == w[4], 'ring', 'the ring of point %d is %d, expected %d', k, ring, w[4])
    count('clouds')
    count('points', len(want))
    if not want:
        count('empty_outputs')
    return len(want)


def case(c, r, thorough):
    from point_type_converter import convert
    bus.__init__()

    def drive(_node=None):
        check(len(bus.subs) == 1 and bus.subs[0][1] == 'points_raw' and bus.subs[0][0] is PointCloud2, 'subscription', 'the subscriptions are %s',
              [(s[0].__name__, s[1]) for s in bus.subs])
        check(any(p.topic == 'points_converted' for p in bus.pubs), 'publisher', 'nothing publishes points_converted')
        q = bus.subs[0][3]
        check(not isinstance(q, int) and q.history is QoSHistoryPolicy.KEEP_ALL, 'clouds-lost', 'the subscription can lose clouds')
        for _ in range(r.choice([1, 1, 2, 4])):
            sent, rows, kinds, fields = random_cloud(r, thorough)
            c['note'] = '%d points, %s, fields %s (listed %s), step %d' % (
                len(rows), 'big-endian' if sent.is_bigendian else 'little-endian', fields, [f.name for f in sent.fields], sent.point_step)
            given = copied(sent)
            bus.published.clear()
            bus.subs[0][2](given)
            check(given.data == sent.data, 'input', 'the input cloud was changed')
            check(len(bus.published) == 1 and bus.published[0][0] == 'points_converted', 'one-cloud', '%d clouds were published for one', len(bus.published))
            n = compare(bus.published[0][1], sent, rows, kinds)
            count('big_endian' if sent.is_bigendian else 'little_endian')
            if [f.name for f in sent.fields] != [f[0] for f in fields]:
                count('fields_out_of_order')
            if len(rows) >= 500:
                count('large_clouds')
            c['sig'] = hashlib.sha256((str(c['sig']) + c['note']).encode() + sent.data.tobytes()).hexdigest()
            c['nontrivial'] |= n > 0
            c['desc'] = c['desc'] or c['note'][:300]
        c['ran'] = True

    if r.random() < 0.5:
        bus.on_spin = drive
        convert.main()
        check(c['ran'], 'node-not-spun', 'main() returned without spinning')
        count('mains')
    else:
        convert.PointTypeConverter(context=None)
        drive()


def main():
    o = dict(zip(sys.argv[1::2], sys.argv[2::2]))
    seed, cases = int(o.get('--seed', 1)), int(o.get('--cases', 100))
    shard, nshards, start, only = int(o.get('--shard', 0)), int(o.get('--nshards', 1)), int(o.get('--start', 0)), int(o.get('--only', -1))
    out = open(o['--out'], 'a') if '--out' in o else sys.stdout
    thorough = o.get('--tier') == 'thorough'
    evaluations = nontrivial = 0
    sigs, samples, per_key = set(), [], {}
    for i in range(start, cases):
        if (i != only) if only >= 0 else (i % nshards != shard):
            continue
        if '--progress' in o:
            with open(o['--progress'], 'w') as f:
                f.write('%-20d\n' % i)
        c = {'sig': '', 'nontrivial': False, 'desc': '', 'note': '', 'ran': False}
        key = msg = None
        try:
            case(c, random.Random('%d/%d' % (seed, i)), thorough)
        except Violation as v:
            key, msg = v.key, v.msg
        except Exception as e:  # noqa: B902
            key = 'unexpected-exception ' + type(e).__name__
            msg = 'unexpected %s: %s' % (type(e).__name__, ''.join(traceback.format_exception(e))[-800:])
        evaluations += 1
        if key:
            per_key[key] = per_key.get(key, 0) + 1
            if per_key[key] <= 3:
                out.write(json.dumps({'t': 'viol', 'case': i, 'key': key, 'msg': msg + ' | input: ' + c['note'][:2000]}) + '\n')
                out.flush()
        if c['nontrivial']:
            nontrivial += 1
            sigs.add(int(c['sig'][:15], 16))
            if len(samples) < 3:
                samples.append('case %d: %s' % (i, c['desc']))
    out.write(json.dumps({'t': 'sum', 'evaluations': evaluations, 'nontrivial': nontrivial, 'counters': counters, 'sigs': sorted(sigs), 'samples': samples}) + '\n')
    out.flush()


main()
