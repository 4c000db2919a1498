#!/usr/bin/env python3
"""Draft spec/rules.txt from the current tree (an authoring aid).

No check runs this.  The draft is what the rules say *now*; every rule was
then read against its notice text and the RFC it cites before it was put in
the specification.
"""
import os
import sys
import xml.etree.ElementTree as ET
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.model import Model
from sa.rules import run_exchange
from sa import rulespec, terms

C17 = set(map(int, '''
1053 1113 1114 1115 1116 1117 1118 1119 1120 1121 1122 1123 1124 1125 1126 1127
1128 1129 1130 1131 1132 1133 1134 1135 1136 1137 1162 1163 1164 1165 1166
1167 1168 1169 1170 1171 1172 1173 1174 1175 1176 1177 1178 1179 1180 1181
1182 1183 1184 1185 1186 1187 1188 1189 1190 1191 1192 1193 1194 1195 1196
1197 1198 1199 1200 1201 1202 1203 1204 1205 1206 1207 1208 1209 1210 1211
1212 1213 1214 1215 1216 1217 1218 1219 1220 1221 1222 1261 1262 1263 1264
1265 1266 1267 1268 1269 1270 1271 1272 1273 1274 1275 1303 1235 1236 1237 1238
'''.split()))


def main(root):
    tree = ET.parse(os.path.join(root, 'httpolice/notices.xml')).getroot()
    title = {}
    for n in tree:
        if n.get('id'):
            t = n.find('title')
            title[int(n.get('id'))] = ' '.join(
                ''.join(t.itertext()).split()) if t is not None else ''
    M = Model(root)
    M.install_rules()
    R = rulespec.Rules()
    for cfg, sc in (((True, 1), 'pair'), ((False, 1), 'lone'),
                    ((True, 2), 'multi')):
        R.from_events(M.I, sc, run_exchange(M, *cfg)['events'])
    defs, lets = rulespec.load_defs(sys.argv[2]) if len(sys.argv) > 2 \
        else ({}, {})
    out = []
    order = ('pair', 'lone', 'multi')
    has = {}
    for sc, tg, nid in R.g:
        has.setdefault(nid, set()).add((sc, tg))
    for k in sorted(R.g, key=lambda k: (str(k[2]), order.index(k[0]), k[1])):
        sc, tg, nid = k
        if sc == 'multi':
            base = ('pair', 'resp' if tg == 'resp2' else tg, nid)
            if base in R.g and R.same(k, base, tg):
                continue
        h = has[nid]
        if nid in C17:
            tag = 'C17'
        elif ('pair', 'req') in h and ('pair', 'resp') in h:
            tag = 'C13'
        elif ('pair', 'req') in h:
            tag = 'C14'
        elif ('lone', 'resp') in h:
            tag = 'C15'
        else:
            tag = 'C16'
        out.append('[%s %s %s] %s -- %s' % (sc, tg, nid, tag,
                                            title.get(nid, '')))
        for c in rulespec.dump(R, k):
            for n, t in sorted(defs.items(), key=lambda x: -len(x[1])):
                c = c.replace(t, '$' + n)
            out.append('    ' + c)
        out.append('')
    print('\n'.join(out))


main(sys.argv[1])
