import sys, struct
# list violation records of a batch: vlist.py file.viol [index to print]
b = open(sys.argv[1], 'rb').read()
i = 0; n = 0
while i + 4 <= len(b):
    l, = struct.unpack('<I', b[i:i+4]); r = b[i+4:i+4+l].decode(errors='replace'); i += 4 + l
    c, d, s = r.split('\n', 2)
    if len(sys.argv) > 2:
        if int(sys.argv[2]) == n: sys.stdout.write(s)
    else: print(n, c, '|', d[:230], '| faults:', [x for x in s.split('\n') if x.startswith('fault')])
    n += 1
