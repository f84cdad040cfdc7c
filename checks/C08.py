import os, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
import mbt

I32 = ['-2147483648', '-1', '0', '1', '2147483647', '77']
I64 = I32 + ['-9223372036854775808', '9223372036854775807', '4294967296', '-4294967297']
U32 = ['0', '1', '2147483647', '2147483648', '4294967295']
U64 = U32 + ['9223372036854775808', '18446744073709551615', '4294967296']
F32 = [str(struct.unpack('<I', struct.pack('<f', x))[0]) for x in (0., -0., 1.5, -3.25, 1e38, 1e-45, float('inf'))] + ['2143289344']
F64 = [str(struct.unpack('<Q', struct.pack('<d', x))[0]) for x in (0., -0., 1.5, 1e300, .1, 1e-320, float('-inf'))]
STR = [''.join('%d,' % c for c in x) for x in (b'', b'a', b'abc\0def', b'\xff\xfe', 'é'.encode(), bytes(range(1, 60)))]
ENUM2, ENUM3 = ['0', '1', '-7', '1000000'], ['0', '1', '77', '5']
VALUES = {'int32': I32, 'sint32': I32, 'sfixed32': I32, 'def': I32, 'int64': I64, 'sint64': I64, 'sfixed64': I64,
          'uint32': U32, 'fixed32': U32, 'uint64': U64, 'fixed64': U64, 'float': F32, 'double': F64, 'bool': ['0', '1'],
          'string': STR, 'bytes': STR, 'int': I32}


def main(r):
  exe = r.build('drv_prototypes')
  cmds = []
  for m, names in (('M2', 'f_int32 f_int64 f_uint32 f_uint64 f_sint32 f_sint64 f_fixed32 f_fixed64 f_sfixed32 f_sfixed64 f_float f_double f_bool f_string f_bytes f_enum f_def'),
                   ('M3', 'f_int32 f_int64 f_uint32 f_uint64 f_float f_double f_bool f_string f_bytes f_enum o_int32 o_string o_enum o_bool w_int w_string')):
    for f in names.split():
      vals = VALUES.get(f[2:]) or (ENUM2 if m == 'M2' else ENUM3)
      cmds.append({'op': 'field', 'f': m + '.' + f, 'set': 0, 'v': ''})
      cmds += [{'op': 'field', 'f': m + '.' + f, 'set': 1, 'v': v} for v in vals]
  extra = {'int8_t': ['-128', '-1', '0', '127'], 'uint8_t': ['0', '128', '255'], 'int16_t': ['-32768', '32767', '-1'],
           'uint16_t': ['0', '32768', '65535'], 'int32_t': I32, 'uint32_t': U32, 'int64_t': I64, 'uint64_t': U64,
           'bool': ['0', '1'], 'float': F32, 'double': F64, 'string': STR, 'view': STR, 'cord': STR, 'fragcord': STR, 'text': STR, 'enum': ENUM2}
  for t, vals in extra.items():
    cmds += [{'op': 'field', 'f': 'c++.' + t, 'set': 1, 'v': v} for v in vals]
  r.check('Trace_ProtoTypes', [exe], mbt.each(cmds))
  ss = []
  for h in r.gen('Gen_Container', env={'DEPTH': 4 if r.quick else 5}):
    for k in ('vi', 'vs', 'vp', 'rm', 'rs'):
      ss.append([{'op': 'begin', 'kind': k}] + h)
  if r.quick:
    ss = r.rng.sample(ss, min(len(ss), 5000))
  for _ in range(300 if r.quick else 3000):
    n, s = 0, [{'op': 'begin', 'kind': r.rng.choice(['vi', 'vs', 'vp', 'rm', 'rs'])}]
    for j in range(25):
      k = r.rng.random()
      if k < .45:
        n = r.rng.choice([0, 1, 2, 3, 5, 8, 17, n, max(0, n - 1), n + 1])
        s.append({'op': 'resize', 'n': n})
      elif k < .8 and n:
        s.append({'op': 'set', 'i': r.rng.randint(1, n), 'v': j + 1})
      else:
        n += 1
        s.append({'op': 'add', 'v': j + 1})
    ss.append(s)
  r.check('Trace_Container', [exe], ss, stateful=True)


mbt.run('C08', main)
