#!/usr/bin/env python3
"""known_findings.json: the fix: commits of /repo with the property each belongs to (known, unrepaired findings are listed by hand below)"""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [('save_prop', 'C35'), ('prop_node with both', 'C35'), ('is_valid_prop_label', 'C34'), ('empty comment', 'C34'), ('vec4', 'C19'), ('square_wave', 'C21'), ('axis_angle_from_quat', 'C20'), ('quat_from_directions', 'C20'), ('soft_clamp', 'C21'), ('hash does', 'C23'), ('flag_set', 'C24'), ('descendants', 'C26'), ('parse_prop', 'C28'), ('load_ini', None), ('log messages', 'C29'), ('stringf', None), ('char_stream', 'C03'), ('dot in a folder', 'C07'), ('path::filename', 'C07'), ('scan_str', 'C06'), ('right_str', 'C06'), ('str_ends_with', 'C06'), ('get_filename_folder', 'C08'),
       ('try_unquoted', 'C02'), ('decode_char', 'C02'), ('quoted strings', 'C01'), ('container_tools', 'C13'), ('sorted_vector', 'C10'), ('circular_deque', 'C12'), ('dynarray', 'C14'),
       ('data_header', 'C15'), ('storage', 'C16'), ('circular_frame_buffer', 'C18'), ('table', 'C17')]
KNOWN = []
out = list(KNOWN)
for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines():
    h, s = l.split(' ', 1)
    if s.startswith('fix: '):
        m = [q for k, q in MAP if k in s]
        assert m or 'test_framework' in s, s
        p = m[0] if m else None
        if not p:
            continue      # repaired outside the claimed properties, see DESIGN.md
        out.append({'property': p, 'status': 'fixed', 'commit': h, 'what': 'fixed: property=%s %s %s' % (p, h, s[5:])})
json.dump({'findings': out}, open(os.path.join(HERE, 'known_findings.json'), 'w'), indent=1)
print(len(out))
