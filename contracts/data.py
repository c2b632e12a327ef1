"""data: data_header, storage, table, circular_frame_buffer, channel means"""
TU = 'data.cpp'
FLAGS = ['-Dp=pattern', '-include', 'map', '-include', 'functional', '-include', 'limits', '-include', 'cmath']


def build(w, C):
    w.real_uf = True
    S = w.spec
    M = S.macro
    S.shapes['K'] = w.types.parse('vt::K')
    S.shapes['V'] = w.types.parse('vt::V')
    header(w, C, S, M)
    storage(w, C, S, M)
    table(w, C, S, M)
    cfb(w, C, S, M)
    algo(w, C, S, M)


def header(w, C, S, M):
    H = 'flut::data_header<vt::K>::'
    M('LB', 'h', 'h.labels_')
    M('IX', 'h', 'h.label_indices_')
    # every indexed label sits at its index
    M('WFH', 'h', 'forall(a, implies(has(IX(h), a), 0 <= IX(h)[a] and IX(h)[a] < len(LB(h)) and LB(h)[IX(h)[a]] == a), has(IX(h), a), a="K")')
    M('fnd', 'h,a', '(IX(h)[a] if has(IX(h), a) else NPOS)')
    C(H + 'data_header(u64)', 'channels', requires=['channels <= MAXLEN'], ensures=['len(LB(this)) == channels', 'forall(a, not has(IX(this), a), has(IX(this), a), a="K")', 'WFH(this)'])
    for t in ('il', 'vec'):
        C(H + 'data_header(%s)' % t, 'labels', ghost='gi:int', inv=['WFH(this)', 'A:int | implies(0 <= gi and gi < A, has(IX(this), labels[gi]) and IX(this)[labels[gi]] <= gi)', 'A:int | forall(a, implies(has(IX(this), a), IX(this)[a] < A), has(IX(this), a), a="K")'], ensures=['LB(this) == labels', 'WFH(this)', 'implies(0 <= gi and gi < len(labels), has(IX(this), labels[gi]) and IX(this)[labels[gi]] <= gi)'])
    C(H + 'add', 'label', requires=['WFH(this)', 'len(LB(this)) < MAXLEN'], throws='has(IX(this), label)',
      ensures=['LB(this) == old(LB(this)) + unit(label)', 'WFH(this)', 'result == old(len(LB(this)))', 'fnd(this, label) == result', 'forall(a, implies(a != label, fnd(this, a) == old(fnd(this, a))), has(IX(this), a), a="K")'])
    C(H + 'resize', 's', requires=['WFH(this)', 's <= MAXLEN'], throws='s < len(LB(this))', ensures=['len(LB(this)) == s', 'WFH(this)', 'forall(i, implies(0 <= i and i < old(len(LB(this))), LB(this)[i] == old(LB(this)[i])), LB(this)[i])', 'IX(this) == old(IX(this))'])
    C(H + 'clear', '', ensures=['len(LB(this)) == 0', 'WFH(this)', 'forall(a, not has(IX(this), a), has(IX(this), a), a="K")'])
    C(H + 'find', 'label', ensures=['result == fnd(this, label)'])
    C(H + 'set', 'idx,label', requires=['WFH(this)'], throws='idx >= len(LB(this)) or has(IX(this), label)', 
      ensures=['LB(this) == upd(old(LB(this)), idx, label)', 'WFH(this)', 'result == idx', 'fnd(this, label) == idx',
               'forall(a, implies(a != label, fnd(this, a) == (NPOS if old(fnd(this, a)) == idx else old(fnd(this, a)))), has(IX(this), a), a="K")'])


def storage(w, C, S, M):
    X = 'flut::storage<double, vt::K>::'
    M('F', 's', 's.frame_size_')
    M('CH', 's', 'len(s.labels_.labels_)')
    M('WFS', 's', 'WFH(s.labels_) and len(s.data_) == F(s) * CH(s)')
    M('cell', 's,f,c', 's.data_[f * CH(s) + c]')
    M('inr', 'f,c,nf,nc', '0 <= f and f < nf and 0 <= c and c < nc')
    # the labels of t are those of s followed by unnamed channels
    M('LKEEP', 't,s', 'IX(t) == IX(s) and forall(i, implies(0 <= i and i < len(LB(s)), LB(t)[i] == LB(s)[i]), LB(t)[i])')
    KEEP = 'implies(inr(gf, gc, old(F(this)), old(CH(this))), cell(this, gf, gc) == old(cell(this, gf, gc)))'
    G = 'gf:int,gc:int'
    C(X + 'storage(u64,u64,f64)', 'frames,channels,value', requires=['frames * channels <= MAXLEN', 'channels <= MAXLEN'], ghost=G,
      ensures=['WFS(this)', 'F(this) == frames', 'CH(this) == channels', 'implies(inr(gf, gc, frames, channels), cell(this, gf, gc) == value)', 'forall(a, not has(IX(this.labels_), a), has(IX(this.labels_), a), a="K")'])
    C(X + 'resize', 'nframes,nchannels,value', requires=['WFS(this)', 'nframes * nchannels <= MAXLEN', 'nchannels <= MAXLEN'], throws='nframes < F(this) or nchannels < CH(this)', ghost=G,
      inv=['A:int, S:seq | len(S) == nframes * nchannels',
           'A:int, S:seq | implies(inr(gf, gc, nframes, nchannels), S[gf * nchannels + gc] == (cell(this, gf, gc) if gf < A and gc < CH(this) else value))',
           'A:o.int, B:int, S:seq | implies(inr(gf, gc, nframes, nchannels), S[gf * nchannels + gc] == (cell(this, gf, gc) if (gf < A or (gf == A and gc < B)) and gc < CH(this) else value))'],
      ensures=['WFS(this)', 'F(this) == nframes', 'CH(this) == nchannels', KEEP, 'LKEEP(this.labels_, old(this.labels_))',
               'implies(inr(gf, gc, nframes, nchannels) and not inr(gf, gc, old(F(this)), old(CH(this))), cell(this, gf, gc) == value)'])
    ROOMC = 'F(this) * (CH(this) + 1) <= MAXLEN and CH(this) < MAXLEN'
    ROOMF = '(F(this) + 1) * CH(this) <= MAXLEN and F(this) < MAXLEN'
    NEWL = ['fnd(this.labels_, label) == result', 'forall(a, implies(a != label, fnd(this.labels_, a) == old(fnd(this.labels_, a))), has(IX(this.labels_), a), a="K")']
    C(X + 'add_channel(opaque:vt::K,f64)', 'label,value', requires=['WFS(this)', ROOMC], throws='has(IX(this.labels_), label)', ghost=G,
      ensures=['WFS(this)', 'F(this) == old(F(this))', 'CH(this) == old(CH(this)) + 1', 'result == old(CH(this))', KEEP, 'implies(0 <= gf and gf < F(this) and gc == result, cell(this, gf, gc) == value)',
               'LB(this.labels_)[result] == label'] + NEWL)
    C(X + 'add_channel(opaque:vt::K,vec)', 'label,data', requires=['WFS(this)', 'max(F(this), len(data)) * (CH(this) + 1) <= MAXLEN and CH(this) < MAXLEN'], throws='has(IX(this.labels_), label)', ghost=G,
      inv=['WFS(this)', 'F(this) == max(old(F(this)), len(data))', 'CH(this) == old(CH(this)) + 1', KEEP,
           'A:int | implies(0 <= gf and gf < A and gc == old(CH(this)), cell(this, gf, gc) == data[gf])', 'A:int | implies(A <= gf and gf < F(this) and gc == old(CH(this)), cell(this, gf, gc) == 0)'],
      ensures=['WFS(this)', 'F(this) == max(old(F(this)), len(data))', 'CH(this) == old(CH(this)) + 1', 'result == old(CH(this))', KEEP,
               'implies(0 <= gf and gf < F(this) and gc == result, cell(this, gf, gc) == (data[gf] if gf < len(data) else 0))', 'LB(this.labels_)[result] == label'] + NEWL)
    C(X + 'find_channel', 'label', ensures=['result == fnd(this.labels_, label)'])
    C(X + 'find_or_add_channel', 'label,value', requires=['WFS(this)', ROOMC], ghost=G,
      ensures=['WFS(this)', 'F(this) == old(F(this))', KEEP, 'fnd(this.labels_, label) == result', 'result < CH(this)',
               'implies(old(has(IX(this.labels_), label)), this == old(this))',
               'implies(not old(has(IX(this.labels_), label)), CH(this) == old(CH(this)) + 1 and result == old(CH(this)) and implies(0 <= gf and gf < F(this) and gc == result, cell(this, gf, gc) == value))'])
    C(X + 'set_label', 'channel,label', requires=['WFS(this)'], throws='channel >= CH(this) or has(IX(this.labels_), label)',
      ensures=['WFS(this)', 'F(this) == old(F(this))', 'this.data_ == old(this.data_)', 'LB(this.labels_) == upd(old(LB(this.labels_)), channel, label)', 'fnd(this.labels_, label) == channel'])
    C(X + 'get_label', 'channel', requires=['channel < CH(this)'], ref='this.labels_.labels_[channel]', modifies='')
    C(X + 'add_frame(f64)', 'value', requires=['WFS(this)', ROOMF], ghost=G,
      ensures=['WFS(this)', 'F(this) == old(F(this)) + 1', 'this.labels_ == old(this.labels_)', KEEP, 'implies(0 <= gc and gc < CH(this), cell(this, F(this) - 1, gc) == value)'])
    C(X + 'add_frame(vec)', 'data', requires=['WFS(this)', ROOMF], throws='len(data) != CH(this)', ghost=G,
      ensures=['WFS(this)', 'F(this) == old(F(this)) + 1', 'this.labels_ == old(this.labels_)', KEEP, 'implies(0 <= gc and gc < CH(this), cell(this, F(this) - 1, gc) == data[gc])'])
    C(X + 'clear', '', ensures=['WFS(this)', 'F(this) == 0', 'CH(this) == 0', 'forall(a, not has(IX(this.labels_), a), has(IX(this.labels_), a), a="K")'])
    C(X + 'channel_size', '', ensures=['result == CH(this)'])
    C(X + 'frame_size', '', ensures=['result == F(this)'])
    C(X + 'empty', '', requires=['WFS(this)'], ensures=['iff(result, F(this) == 0 or CH(this) == 0)'])
    for cv in ('mut', 'const'):
        C(X + 'at ' + cv, 'frame,channel', requires=['WFS(this)'], throws='frame >= F(this) or channel >= CH(this)', ref='this.data_[frame * CH(this) + channel]', modifies='')
        C(X + 'operator()(u64,u64) ' + cv, 'frame,channel', requires=['WFS(this)', 'frame < F(this) and channel < CH(this)'], ref='this.data_[frame * CH(this) + channel]', modifies='')
        C(X + 'operator[](u64) ' + cv, 'channel', requires=['WFS(this)', 'channel < CH(this)'], throws='len(this.data_) == 0', ref='this.data_[(F(this) - 1) * CH(this) + channel]', modifies='')
    C(X + 'operator[](opaque:vt::K) mut', 'label', requires=['WFS(this)', ROOMC], throws='F(this) == 0', ghost=G, ref='this.data_[(F(this) - 1) * CH(this) + fnd(this.labels_, label)]',
      ensures=['WFS(this)', 'F(this) == old(F(this))', KEEP, 'fnd(this.labels_, label) < CH(this)', 'implies(old(has(IX(this.labels_), label)), this == old(this))'])
    C(X + 'operator()(opaque:vt::K) const', 'label', requires=['WFS(this)'], throws='not has(IX(this.labels_), label) or len(this.data_) == 0', ref='this.data_[(F(this) - 1) * CH(this) + fnd(this.labels_, label)]', modifies='')
    C(X + 'get_interpolated_value', 'frame_idx,channel', requires=['WFS(this)', 'channel < CH(this)', '0 <= frame_idx', 'frame_idx < 9223372036854775807.0'], throws='(frame_idx // 1) + 1 >= F(this)', modifies='',
      ensures=['let(f, frame_idx // 1, result == (1 - (frame_idx - f)) * cell(this, f, channel) + (frame_idx - f) * cell(this, f + 1, channel))'])


def table(w, C, S, M):
    X = 'flut::table<vt::V, vt::K>::'
    M('RW', 't', 'len(t.row_labels_.labels_)')
    M('CL', 't', 'len(t.col_labels_.labels_)')
    M('WFT', 't', 'WFH(t.row_labels_) and WFH(t.col_labels_) and len(t.data_) == RW(t) * CL(t)')
    M('tc', 't,r,c', 't.data_[r * CL(t) + c]')
    G = 'gr:int,gc:int'
    KEEP = 'implies(inr(gr, gc, old(RW(this)), old(CL(this))), tc(this, gr, gc) == old(tc(this, gr, gc)))'
    NEW = lambda v: 'implies(inr(gr, gc, RW(this), CL(this)) and not inr(gr, gc, old(RW(this)), old(CL(this))), tc(this, gr, gc) == %s)' % v
    C(X + 'table(u64,u64)', 'rows,cols', requires=['rows * cols <= MAXLEN', 'rows <= MAXLEN', 'cols <= MAXLEN'], ghost=G,
      ensures=['WFT(this)', 'RW(this) == rows', 'CL(this) == cols', 'implies(inr(gr, gc, rows, cols), tc(this, gr, gc) == default_("V"))'])
    C(X + 'resize', 'rows,cols,default_value', requires=['WFT(this)', 'rows * cols <= MAXLEN', 'rows <= MAXLEN', 'cols <= MAXLEN'], throws='rows < RW(this) or cols < CL(this)', ghost=G,
      inv=['S:seq | len(S) == rows * cols',
           # cells before the current position have their final value, the others still have the old layout
           'A:int, S:seq | implies(inr(gr, gc, rows, cols) and gr >= A, S[gr * cols + gc] == (old(tc(this, gr, gc)) if inr(gr, gc, RW(this), CL(this)) else default_value))',
           'A:int, S:seq | implies(inr(gr, gc, RW(this), CL(this)) and gr < A, S[gr * CL(this) + gc] == old(tc(this, gr, gc)))',
           'A:o.int, B:int, S:seq | implies(inr(gr, gc, rows, cols) and (gr > A or (gr == A and gc >= B)), S[gr * cols + gc] == (old(tc(this, gr, gc)) if inr(gr, gc, RW(this), CL(this)) else default_value))',
           'A:o.int, B:int, S:seq | implies(inr(gr, gc, RW(this), CL(this)) and (gr < A or (gr == A and gc < B)), S[gr * CL(this) + gc] == old(tc(this, gr, gc)))',
           # filling a new buffer in forward order
           'A:int, S:seq | implies(inr(gr, gc, rows, cols), S[gr * cols + gc] == (tc(this, gr, gc) if gr < A and gc < CL(this) else default_value))',
           'A:o.int, B:int, S:seq | implies(inr(gr, gc, rows, cols), S[gr * cols + gc] == (tc(this, gr, gc) if (gr < A or (gr == A and gc < B)) and gc < CL(this) else default_value))'],
      ensures=['WFT(this)', 'RW(this) == rows', 'CL(this) == cols', KEEP, NEW('default_value'), 'LKEEP(this.row_labels_, old(this.row_labels_))', 'LKEEP(this.col_labels_, old(this.col_labels_))'])
    lab = lambda h: ['fnd(this.%s, label) == result' % h, 'LB(this.%s)[result] == label' % h, 'forall(a, implies(a != label, fnd(this.%s, a) == old(fnd(this.%s, a))), has(IX(this.%s), a), a="K")' % (h, h, h)]
    ROOMR = '(RW(this) + 1) * CL(this) <= MAXLEN and RW(this) < MAXLEN'
    ROOMC = 'RW(this) * (CL(this) + 1) <= MAXLEN and CL(this) < MAXLEN'
    C(X + 'add_row', 'label,default_value', requires=['WFT(this)', ROOMR], throws='has(IX(this.row_labels_), label)', ghost=G,
      ensures=['WFT(this)', 'RW(this) == old(RW(this)) + 1', 'this.col_labels_ == old(this.col_labels_)', 'result == old(RW(this))', KEEP, NEW('default_value')] + lab('row_labels_'))
    C(X + 'add_column', 'label,default_value', requires=['WFT(this)', ROOMC], throws='has(IX(this.col_labels_), label)', ghost=G,
      ensures=['WFT(this)', 'CL(this) == old(CL(this)) + 1', 'RW(this) == old(RW(this))', 'LKEEP(this.row_labels_, old(this.row_labels_))', 'result == old(CL(this))', KEEP, NEW('default_value')] + lab('col_labels_'))
    for nm, h, n, rm, oh, on in (('row', 'row_labels_', 'RW', ROOMR, 'col_labels_', 'CL'), ('column', 'col_labels_', 'CL', ROOMC, 'row_labels_', 'RW')):
        C(X + 'get_or_add_' + nm, 'label,default_value', requires=['WFT(this)', rm], ghost=G,
          ensures=['WFT(this)', 'fnd(this.%s, label) == result' % h, 'result < %s(this)' % n, KEEP, NEW('default_value'), 'LKEEP(this.%s, old(this.%s))' % (oh, oh), '%s(this) == old(%s(this))' % (on, on),
                   'implies(old(has(IX(this.%s), label)), this == old(this))' % h, 'implies(not old(has(IX(this.%s), label)), result == old(%s(this)) and %s(this) == old(%s(this)) + 1)' % (h, n, n, n)])
    C(X + 'row_size', '', ensures=['result == RW(this)'])
    C(X + 'column_size', '', ensures=['result == CL(this)'])
    for cv in ('mut', 'const'):
        C(X + 'operator()(u64,u64) ' + cv, 'row,col', requires=['WFT(this)'], throws='row >= RW(this) or col >= CL(this)', ref='this.data_[row * CL(this) + col]', modifies='')
    CELL = 'this.data_[fnd(this.row_labels_, row) * CL(this) + fnd(this.col_labels_, col)]'
    C(X + 'operator()(opaque:vt::K,opaque:vt::K) const', 'row,col', requires=['WFT(this)'], throws='not has(IX(this.row_labels_), row) or not has(IX(this.col_labels_), col)', ref=CELL, modifies='')
    C(X + 'operator()(opaque:vt::K,opaque:vt::K) mut', 'row,col', requires=['WFT(this)', '(RW(this) + 1) * (CL(this) + 1) <= MAXLEN', 'RW(this) < MAXLEN', 'CL(this) < MAXLEN'], ghost=G, ref=CELL,
      ensures=['WFT(this)', KEEP, NEW('default_("V")'), 'fnd(this.row_labels_, row) < RW(this)', 'fnd(this.col_labels_, col) < CL(this)',
               'RW(this) == old(RW(this)) + (0 if old(has(IX(this.row_labels_), row)) else 1)', 'CL(this) == old(CL(this)) + (0 if old(has(IX(this.col_labels_), col)) else 1)'])


def cfb(w, C, S, M):
    X = 'flut::circular_frame_buffer<double, vt::K>::'
    M('NB', 's', 's.frame_buf_size_')
    M('WFB', 's', 'WFH(s.labels_) and len(s.data_) == NB(s) * CH(s)')
    # the frame is one of the last NB frames added (the current one included)
    M('live', 's,f', 'f < s.frame_size_ and f + NB(s) >= s.frame_size_')
    M('bcell', 's,f,c', 's.data_[(f % NB(s)) * CH(s) + c]')
    G = 'gf:int,gc:int'
    ALL0 = lambda v: 'implies(0 <= gf and gf < NB(this) and 0 <= gc and gc < CH(this), bcell(this, gf, gc) == %s)' % v
    C(X + 'circular_frame_buffer(u64,u64)', 'channels,frames', requires=['frames * channels <= MAXLEN', 'channels <= MAXLEN'], ghost=G,
      ensures=['WFB(this)', 'NB(this) == frames', 'CH(this) == channels', 'this.frame_size_ == 0', ALL0('0')])
    ROOM = 'NB(this) * (CH(this) + 1) <= MAXLEN and CH(this) < MAXLEN'
    NEWL = ['fnd(this.labels_, label) == result', 'forall(a, implies(a != label, fnd(this.labels_, a) == old(fnd(this.labels_, a))), has(IX(this.labels_), a), a="K")']
    C(X + 'add_channel', 'label', requires=['WFB(this)', ROOM], throws='has(IX(this.labels_), label)', ghost=G, ensures=['WFB(this)', 'NB(this) == old(NB(this))', 'CH(this) == old(CH(this)) + 1', 'result == old(CH(this))', ALL0('0'), 'this.frame_size_ == old(this.frame_size_)', 'LB(this.labels_)[result] == label'] + NEWL)
    C(X + 'find_channel', 'label', ensures=['result == fnd(this.labels_, label)'])
    C(X + 'find_or_add_channel', 'label', requires=['WFB(this)', ROOM], ensures=['WFB(this)', 'NB(this) == old(NB(this))', 'fnd(this.labels_, label) == result', 'result < CH(this)', 'this.frame_size_ == old(this.frame_size_)', 'implies(old(has(IX(this.labels_), label)), this == old(this))'])
    C(X + 'set_label', 'channel,label', requires=['WFB(this)'], throws='channel >= CH(this) or has(IX(this.labels_), label)', ensures=['WFB(this)', 'this.data_ == old(this.data_)', 'fnd(this.labels_, label) == channel', 'NB(this) == old(NB(this))', 'this.frame_size_ == old(this.frame_size_)'])
    C(X + 'get_label', 'channel', requires=['channel < CH(this)'], ref='this.labels_.labels_[channel]', modifies='')
    C(X + 'add_frame', '', requires=['WFB(this)', 'this.frame_size_ < MAXLEN'], ensures=['this.data_ == old(this.data_)', 'this.frame_size_ == old(this.frame_size_) + 1', 'result == this.frame_size_', 'WFB(this)', 'NB(this) == old(NB(this))', 'CH(this) == old(CH(this))'])
    C(X + 'frame_size', '', ensures=['result == this.frame_size_'])
    C(X + 'channel_size', '', ensures=['result == CH(this)'])
    C(X + 'empty', '', ensures=['iff(result, len(this.data_) == 0)'])
    LIVE = 'this.frame_size_ <= MAXLEN and NB(this) <= MAXLEN'
    for cv in ('mut', 'const'):
        C(X + 'at ' + cv, 'frame,channel', requires=['WFB(this)', LIVE, 'frame <= MAXLEN'], throws='not live(this, frame) or channel >= CH(this)', ref='this.data_[(frame % NB(this)) * CH(this) + channel]', modifies='')
        C(X + 'operator()(u64,u64) ' + cv, 'frame,channel', requires=['WFB(this)', LIVE, 'live(this, frame)', 'channel < CH(this)'], ref='this.data_[(frame % NB(this)) * CH(this) + channel]', modifies='')
        C(X + 'operator[] ' + cv, 'channel', requires=['WFB(this)', LIVE, 'NB(this) > 0', 'this.frame_size_ > 0', 'channel < CH(this)'], ref='this.data_[((this.frame_size_ - 1) % NB(this)) * CH(this) + channel]', modifies='')
        C(X + 'reverse ' + cv, 'frame,channel', requires=['WFB(this)', LIVE, 'frame < NB(this)', 'frame < this.frame_size_', 'channel < CH(this)'], ref='this.data_[((this.frame_size_ - 1 - frame) % NB(this)) * CH(this) + channel]', modifies='')
    C(X + 'get_interpolated_value', 'frame0,channel,pos', requires=['WFB(this)', LIVE, 'frame0 <= MAXLEN'], throws='not live(this, frame0) or channel >= CH(this)', modifies='',
      ensures=['result == (1 - pos) * bcell(this, frame0, channel) + pos * bcell(this, frame0 + 1, channel)'])
    for sig, ps, ch in (('(u64,u64,f64)', 'nframes,nchannels,value', 'nchannels'), ('(u64,f64)', 'nframes,value', 'CH(this)')):
        C(X + 'resize_buffer' + sig, ps, requires=['WFB(this)', 'nframes * %s <= MAXLEN' % ch, '%s <= MAXLEN' % ch], throws='%s < CH(this)' % ch if ch == 'nchannels' else None, ghost=G,
          ensures=['WFB(this)', 'NB(this) == nframes', 'CH(this) == ' + ('nchannels' if ch == 'nchannels' else 'old(CH(this))'), ALL0('value'), 'this.frame_size_ == old(this.frame_size_)', 'LKEEP(this.labels_, old(this.labels_))'])
    # two different frames of the window never share a cell
    S.lemma('window_distinct', 'f:int,g:int,n:int', ['0 <= f', 'f < g', 'g < f + n'], ['f % n != g % n'], hints=['f == (f // n) * n + f % n and g == (g // n) * n + g % n', 'f // n <= g // n', 'implies(f % n == g % n, f // n < g // n)'])
    S.lemma('cells_distinct', 'f:int,g:int,c:int,d:int,n:int', ['0 <= c', 'c < n', '0 <= d', 'd < n', 'f * n + c == g * n + d'], ['f == g and c == d'])


def algo(w, C, S, M):
    from vf.types import TSeq, TFloat
    S.shapes['RS'] = TSeq(TFloat(64))
    S.recfun('csum', 'd:RS,n:int,c:int,k:int', 'real', '0.0 if k <= 0 else csum(d, n, c, k - 1) + d[(k - 1) * n + c]')
    M('mean', 'd,n,c,f', 'csum(d, n, c, f) / f')
    # sum over the first k of f frames of the products of the deviations of channels a and b
    S.recfun('cprod', 'd:RS,n:int,f:int,a:int,b:int,k:int', 'real', '0.0 if k <= 0 else cprod(d, n, f, a, b, k - 1) + (d[(k - 1) * n + a] - mean(d, n, a, f)) * (d[(k - 1) * n + b] - mean(d, n, b, f))')
    M('WFSd', 's', 'len(s.data_) == F(s) * CH(s) and F(s) > 0')
    C('flut::compute_channel_means', 'sto', requires=['WFSd(sto)'], ghost='gm:int', gpat='result[gm]',
      inv=['S:seq | len(S) == CH(sto)',
           'A:int, S:seq | implies(0 <= gm and gm < CH(sto), S[gm] == csum(sto.data_, CH(sto), gm, A))',
           'A:o.int, B:int, S:seq | implies(0 <= gm and gm < CH(sto), S[gm] == csum(sto.data_, CH(sto), gm, A + 1 if gm < B else A))',
           'P:it, S:seq | implies(0 <= gm and gm < CH(sto), S[gm] == (csum(sto.data_, CH(sto), gm, F(sto)) / F(sto) if gm < P.off else csum(sto.data_, CH(sto), gm, F(sto))))'],
      ensures=['len(result) == CH(sto)', 'implies(0 <= gm and gm < CH(sto), result[gm] == csum(sto.data_, CH(sto), gm, F(sto)) / F(sto))'])
    M('cvs', 's,a,b,k', 'cprod(s.data_, CH(s), F(s), a, b, k)')
    C('flut::compute_covariance', 'sto', requires=['WFSd(sto)', 'CH(sto) * CH(sto) <= MAXLEN'], ghost='gr:int,gc:int',
      inv=['A:int, S:seq | len(S) == CH(sto) * CH(sto)',
           'A:int, S:seq | implies(inr(gr, gc, A, CH(sto)), S[gr * CH(sto) + gc] == cvs(sto, gr, gc, F(sto)) / F(sto))',
           'A:o.int, B:int, S:seq | implies(inr(gr, gc, CH(sto), CH(sto)) and (gr < A or (gr == A and gc < B)), S[gr * CH(sto) + gc] == cvs(sto, gr, gc, F(sto)) / F(sto))',
           'A:o.int, B:o.int, D:int, R:real | R == cvs(sto, A, B, D)'],
      ensures=['len(result.row_labels_.labels_) == CH(sto) and len(result.col_labels_.labels_) == CH(sto)',
               'implies(inr(gr, gc, CH(sto), CH(sto)), result.data_[gr * CH(sto) + gc] == cvs(sto, gr, gc, F(sto)) / F(sto))'])
    S.lemma('cov_symmetric', 'd:RS,n:int,f:int,a:int,b:int,k:int', ['k <= f'], ['cprod(d, n, f, a, b, k) == cprod(d, n, f, b, a, k)'], induct='k')
    S.lemma('var_nonneg', 'd:RS,n:int,f:int,a:int,k:int', ['k <= f'], ['cprod(d, n, f, a, a, k) >= 0'], induct='k')
