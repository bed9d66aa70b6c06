"""one-token mutation sites of a C source file (used by automut.py and corpus/grow.py)"""
import re
SUB = [(r'<(?![<=])', '<='), (r'<=', '<'), (r'(?<![->])>(?![>=])', '>='), (r'>=', '>'), (r'&&', '||'), (r'\|\|', '&&'), (r' \+ ', ' - '), (r' - ', ' + '), (r'\bimin\b', 'imax'), (r'\bimax\b', 'imin'),
       (r'\bss_hor\b', 'ss_ver'), (r'\bss_ver\b', 'ss_hor'), (r'\[0\]', '[1]'), (r'\[1\]', '[0]'), (r'>> 1\b', '>> 2'), (r'<< 1\b', '<< 2'), (r'\b1\b', '2'), (r'\b2\b', '3'), (r'\b3\b', '2'), (r'\b4\b', '3'), (r'\b7\b', '6'), (r'\b8\b', '7'), (r'\bw4\b', 'h4'), (r'\bh4\b', 'w4'), (r'\bbw4\b', 'bh4'), (r'\bbh4\b', 'bw4'),
       (r'\bbx4\b', 'by4'), (r'\bby4\b', 'bx4'), (r'\bumin\b', 'umax'), (r' \+= ', ' -= '), (r' == ', ' != '), (r' != ', ' == '), (r'!(?=[a-zA-Z(])', ''), (r'\b0\b', '1'), (r' & ', ' | '), (r' \| ', ' & '), (r'STMT', '')]
def sites(f, lo, hi):
    out = []; skip = False
    for n, l in enumerate(open('/repo/' + f).read().split('\n'), 1):
        if n < lo or n > hi or n < 28: continue
        s = l.split('//')[0]
        if re.match(r'\s*(#|\*|/\*|assert|case\b|static|const|int\b|unsigned|printf|fprintf|default|\}|$)', s) and not re.match(r'\s*(const|int\b|unsigned).*=', s): continue
        if 'assert' in s or '"' in s or 'DEBUG' in s: continue
        for p, r in SUB:
            if p == 'STMT':
                if re.match(r'\s+[a-z_>.\-\[\]0-9()*&]+( [+|&-]?= .*|\(.*\));$', s): out.append((n, l, re.match(r'\s*', l).group(0) + ';'))
            else:
                for m in re.finditer(p, s): out.append((n, l, l[:m.start()] + r + l[m.end():]))
    return out
