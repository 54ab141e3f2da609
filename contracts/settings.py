"""C19: every setting of the caller reaches the step it controls, the others keep their default"""
import ast, os
from pyvc.spec import *

REPO = os.environ.get('PYVC_REPO', '/repo')
# the settings a user can give, with the values used when none is given
DEFAULTS = dict(
    debug=False, connected_border_tolerance=0.5, max_border_width=6.0, min_border_clearance=2.0,
    float_image_ignorable_gap=5.0, float_layout_tolerance=0.1, page_margin_factor_top=0.5, page_margin_factor_bottom=0.5,
    shape_merging_threshold=0.5, shape_min_dimension=2.0, line_overlap_threshold=0.9,
    line_free_space_ratio_threshold=0.1, line_merging_threshold=2.0, line_separate_threshold=5.0,
    lines_left_aligned_threshold=1.0, lines_right_aligned_threshold=1.0, lines_center_aligned_threshold=2.0,
    clip_image_res_ratio=3.0, curve_path_ratio=0.2, extract_stream_table=False)
NUMBERS = [k for k, v in DEFAULTS.items() if not isinstance(v, bool)]


def parameters(target):
    """names of the parameters of a function of the code, as written in its source"""
    mod, qual = target.split(':')
    path = os.path.join(REPO, 'pdf2docx', *mod.split('.')) + '.py'
    node = ast.parse(open(path).read())
    for name in qual.split('.'):
        node = next((n for n in node.body if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == name), None)
        if node is None: unsupported(f'{target} does not exist')
    static = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in node.decorator_list)
    a = node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    return names if static else names[1:], a.vararg is not None


def bind(target, args, kw):
    """arguments of a call by parameter name; positional ones of a *args function as a tuple under '*'"""
    names, var = parameters(target)
    got = dict(zip(names, args))
    if len(args) > len(names):
        if not var: raise TypeError(target)
        got['*'] = tuple(args[len(names):])
    got.update(kw)
    return got


def recorder(target, result=None):
    """stand-in of a step: records its arguments by parameter name"""
    def factory(ctx):
        def stub(*a, **k):
            me, a = (None, a) if result == 'static' else (a[0], a[1:])
            ctx.got.append((target.split(':')[1], bind(target, a, k)))
            return me if result in (None, 'self') else result(ctx) if callable(result) else result
        return stub
    return {target: factory}


def reach(c, got, step, **want):
    """the recorded call of a step has the wanted values"""
    calls = [g for n, g in got if n == step]
    c.ensures(f'{step} runs once', len(calls) == 1)
    if len(calls) != 1: return
    for p, v in want.items():
        if p not in calls[0]: unsupported(f'{step} has no parameter {p}')
        c.ensures(f'{p} reaches {step}', same(calls[0][p], v) if isinstance(v, (dict, list)) else eq(calls[0][p], v))


def settings(c): return {k: c.real(k, 0, 10) if not isinstance(v, bool) else c.choice(k, [False, True]) for k, v in DEFAULTS.items()}


# ------------------------------------------------ defaults and the values given
@contract(['C19', 'C21'], 'page.Page:Page.init_settings')
def init(c):
    given = {}
    # one named setting at a time is arbitrary; an unknown one may come along
    k = c.choice('given', [None] + list(DEFAULTS))
    if k is not None: given[k] = c.real('value', 0, 10) if k in NUMBERS else c.choice('flag', [False, True])
    if c.choice('another', [False, True]): given['unknown'] = 7; given['line_merging_threshold'] = given.get('line_merging_threshold', 3.5)
    arg = c.choice('form', ['dict', 'none', 'empty'])
    use = given if arg == 'dict' else {} if arg == 'empty' else None
    before = dict(given)
    r = c.call(c.mod('page.Page').Page.init_settings, use)
    want = dict(DEFAULTS)
    if arg == 'dict': want.update(given)
    for n in DEFAULTS: c.ensures(f'{n} is the one given, else its default', n in r and eq(r[n], want[n]))
    c.ensures('the settings of the caller stay as they are', set(given) == set(before) and all(same(given[n], before[n]) or given[n] == before[n] for n in before))
    c.ensures('the page has settings of its own', r is not use)
    # a change of one page's settings must not show in those of another
    r['max_border_width'] = 99.0
    r2 = c.mod('page.Page').Page.init_settings(None)
    c.ensures('settings of one page do not reach another', set(r2) >= set(DEFAULTS) and all(eq(r2[n], v) for n, v in DEFAULTS.items()))


def note(name):
    def factory(ctx):
        def stub(self, *a): ctx.got.append((name, self.settings)); return self
        return stub
    return factory


@contract(['C19', 'C21'], 'page.Page:Page.parse', n=0, stubs={
    'page.Page:Page._load_source': note('load'), 'page.Page:Page._parse_layout': note('layout'),
    'page.Page:Page.init_settings': lambda ctx: staticmethod_like(ctx)})
def page_parse(c):
    c.got = []
    given = c.choice('given', [None, {}, {'max_border_width': 3.0}])
    old = {'max_border_width': 1.0}
    p = c.raw(c.mod('page.Page').Page, _finalized=False, settings=old, id=3)
    c.given = given
    c.call(p.parse, given)
    c.ensures('both steps see the settings of this call', [n for n, _ in c.got if n != 'init'] == ['load', 'layout'] and all(s is c.made for n, s in c.got if n != 'init'))
    c.ensures('made from the settings given', [s for n, s in c.got if n == 'init'] == [given] or (not given and all(not s for n, s in c.got if n == 'init')))
    c.ensures('settings of an earlier call are gone', p.settings is c.made)


def staticmethod_like(ctx):
    ctx.made = {'made': True}
    def stub(*a, **k):
        a = [x for x in a if not hasattr(x, 'settings')]
        ctx.got.append(('init', a[0] if a else k.get('settings')))
        return ctx.made
    return stub


# ------------------------------------------------ from the layout to its steps
def parts(c, **kw):
    """a layout with stand-ins of its collections"""
    class Coll:
        _pyvc_stub = True
        text_underlines_strikes = text_highlights = hyperlinks = ()
        def __iter__(self): return iter(c.members)
        def __len__(self): return len(c.members)
        def __bool__(self): return True
    c.members = kw.pop('members', [])
    return c.raw(c.mod('page.Layout').Layout, **kw), Coll


STEPS = {}
for t in ('page.Blocks:Blocks.clean_up', 'shape.Shapes:Shapes.clean_up', 'shape.Shapes:Shapes.detect_initial_categories', 'page.Blocks:Blocks.parse_text_format', 'page.Blocks:Blocks.parse_spacing',
          'table.TablesConstructor:TablesConstructor.lattice_tables', 'table.TablesConstructor:TablesConstructor.stream_tables', 'table.TablesConstructor:TablesConstructor.page_layout_table'):
    STEPS.update(recorder(t))


def layout(c):
    L = c.mod('page.Layout')
    l = c.raw(L.Layout, _parent=c.choice('parent', [None, 'page']))
    if l._parent: l._parent = c.raw(c.mod('page.Page').Page)
    else: l._parent = c.raw(c.mod('table.Cell').Cell, border_width=(0, 0, 0, 0))
    l.blocks = c.raw(c.mod('page.Blocks').Blocks, _instances=[], floating_image_blocks=[], _parent=l)
    l.shapes = c.mod('shape.Shapes').Shapes(parent=l)
    l._table_parser = c.raw(c.mod('table.TablesConstructor').TablesConstructor, _parent=l, _blocks=l.blocks, _shapes=l.shapes)
    c.got = []
    return l


@contract('C19', 'page.Layout:Layout.clean_up', n=0, stubs=STEPS)
def layout_clean(c):
    s, l = settings(c), layout(c)
    c.call(l.clean_up, s)
    reach(c, c.got, 'Blocks.clean_up', **{k: s[k] for k in ('float_image_ignorable_gap', 'line_overlap_threshold', 'line_merging_threshold')})
    reach(c, c.got, 'Shapes.clean_up', **{k: s[k] for k in ('max_border_width', 'shape_merging_threshold', 'shape_min_dimension')})


@contract('C19', 'page.Layout:Layout._parse_layout_bottom_up', n=0, stubs=STEPS)
def layout_tables(c):
    s, l = settings(c), layout(c)
    c.call(l._parse_layout_bottom_up, s)
    reach(c, c.got, 'TablesConstructor.lattice_tables', **{k: s[k] for k in ('connected_border_tolerance', 'min_border_clearance', 'max_border_width')})
    reach(c, c.got, 'TablesConstructor.stream_tables', **{k: s[k] for k in ('min_border_clearance', 'max_border_width', 'float_layout_tolerance', 'line_separate_threshold')})
    c.ensures('ruled tables come first', [n for n, _ in c.got].index('TablesConstructor.lattice_tables') < [n for n, _ in c.got].index('TablesConstructor.stream_tables'))


FORMAT = ('line_separate_threshold', 'line_free_space_ratio_threshold', 'lines_left_aligned_threshold', 'lines_right_aligned_threshold', 'lines_center_aligned_threshold')


@contract('C19', 'page.Layout:Layout._parse_text_format', n=0, stubs={**recorder('text.TextBlock:TextBlock.parse_horizontal_spacing'), **recorder('text.TextBlock:TextBlock.parse_line_spacing'), **recorder('page.Blocks:Blocks.parse_text_format'),
    'text.TextBlock:TextBlock.text_direction': lambda ctx: (lambda self: ctx.mod('common.share').TextDirection.LEFT_RIGHT)})
def layout_format(c):
    s, l = settings(c), layout(c)
    l._parent._margin = (0, 0, 0, 0)
    if isinstance(l._parent, c.mod('page.Page').Page): l._parent.width, l._parent.height = c.real('w', 1, 900), c.real('h', 1, 900)
    else: l._parent.bbox = c.rect('cell')
    b = c.raw(c.mod('text.TextBlock').TextBlock, bbox=c.rect('b'), before_space=0.0, after_space=0.0)
    b.lines = c.raw(c.mod('text.Lines').Lines, _instances=[], _parent=b)
    b._type = c.mod('common.share').BlockType.TEXT
    l.blocks._instances = [b]
    c.call(l._parse_text_format, s)
    reach(c, c.got, 'TextBlock.parse_horizontal_spacing', **{k: s[k] for k in FORMAT})


@contract('C19', 'page.Layout:Layout.parse', n=0, stubs={
    'page.Layout:Layout._parse_layout_top_down': lambda ctx: (lambda self, s: ctx.got.append(('top', self, s))),
    'page.Layout:Layout._parse_layout_bottom_up': lambda ctx: (lambda self, s: ctx.got.append(('bottom', self, s))),
    'page.Layout:Layout._parse_text_format': lambda ctx: (lambda self, s: ctx.got.append(('format', self, s)))})
def layout_parse(c):
    """page level and cells nested in tables: the same settings"""
    s, l = settings(c), layout(c)
    cells, T, C, Rw = [], c.mod('table.TableBlock'), c.mod('table.Cell'), c.mod('table.Row')
    shape = c.choice('rows', [(1, 1), (1, 2), (2, 1), (2, 2)])
    nested = []
    def table():
        t = c.raw(T.TableBlock, _rows=[])
        t._type = c.mod('common.share').BlockType.LATTICE_TABLE
        for i in range(shape[0]):
            row = []
            for j in range(shape[1]):
                inner = layout_of(c)
                merged = i == 0 and j == 1 and c.choice('merged', [False, True])
                cell = c.raw(C.Cell, layout=inner, merged_cells=(0, 0) if merged else (1, 1), bbox=c.rect(f'cell{i}{j}', nonempty=True))
                inner._parent = cell
                if not merged: cells.append(inner)
                row.append(cell)
            t._rows.append(row)
        return t
    l.blocks._instances = [table()]
    c.call(l.parse, s)
    mine = [n for n, o, _ in c.got if o is l]
    c.ensures('every step of this level, in order', mine == ['top', 'bottom', 'format'])
    c.ensures('with these settings', all(x is s for _, o, x in c.got))
    for o in cells: c.ensures('every cell is analysed in the same way', [n for n, q, _ in c.got if q is o] == ['top', 'bottom', 'format'])


def layout_of(c):
    L = c.mod('page.Layout')
    l = c.raw(L.Layout, _parent=None)
    l.blocks = c.raw(c.mod('page.Blocks').Blocks, _instances=[], floating_image_blocks=[], _parent=l)
    l.shapes = c.mod('shape.Shapes').Shapes(parent=l)
    return l


# ------------------------------------------------ the steps pass them on
def text_block(c, name='b'):
    b = c.raw(c.mod('text.TextBlock').TextBlock, bbox=c.rect(name, nonempty=True), before_space=0.0, after_space=0.0)
    b.lines = c.raw(c.mod('text.Lines').Lines, _instances=[], _parent=b)
    b._type = c.mod('common.share').BlockType.TEXT
    return b


ONE_DIRECTION = {'text.TextBlock:TextBlock.text_direction': lambda ctx: (lambda self: ctx.mod('common.share').TextDirection.LEFT_RIGHT)}


def groups_of_one(ctx):
    def group(self, *a, **k): return [[x] for x in self._instances]
    return group


@contract('C19', 'page.Blocks:Blocks.clean_up', n=0, stubs={**recorder('page.Blocks:Blocks.identify_floating_images'), **recorder('text.Lines:Lines.join'), **ONE_DIRECTION,
    'text.TextBlock:TextBlock.text': lambda ctx: (lambda self: 'text'), 'page.Blocks:Blocks.strip': lambda ctx: (lambda self: self), 'common.Collection:BaseCollection.group': groups_of_one})
def blocks_clean(c):
    l = layout(c)
    P = c.mod('page.Page').Page
    l._parent = c.raw(P, width=c.real('w', 1, 900), height=c.real('h', 1, 900), _margin=(0, 0, 0, 0))
    b = text_block(c)
    c.requires(And(b.bbox[0] >= 0, b.bbox[1] >= 0, b.bbox[2] <= l._parent.width, b.bbox[3] <= l._parent.height))
    l.blocks._instances = [b]
    gap, overlap, merging = c.real('gap', 0, 9), c.real('overlap', 0, 1), c.real('merging', 0, 9)
    names, _ = parameters('page.Blocks:Blocks.clean_up')
    vals = dict(float_image_ignorable_gap=gap, line_overlap_threshold=overlap, line_merging_threshold=merging)
    if set(names) != set(vals): unsupported('parameters of Blocks.clean_up')
    c.call(lambda: l.blocks.clean_up(**vals))
    reach(c, c.got, 'Blocks.identify_floating_images', float_image_ignorable_gap=gap)
    reach(c, c.got, 'Lines.join', line_overlap_threshold=overlap, line_merging_threshold=merging)


def table_structure(ctx):
    class Structure:
        _pyvc_stub = True
        def __init__(self, strokes, settings=None): ctx.got.append(('TableStructure', settings))
        def parse(self, *a): return self
        def to_table_block(self): return ctx.table
    return Structure


class Rect1:
    """strokes or fillings of one region"""
    _pyvc_stub = True
    def __init__(self, c, name): self.bbox = c.rect(name, nonempty=True); self.c = c
    def __bool__(self): return True
    def __len__(self): return 1
    def __iter__(self): return iter(())
    def contained_in_bbox(self, b): return self
    def split_with_intersection(self, *a): return self, self
    def sort_in_reading_order(self): return self


def of_shapes(ctx): return lambda self: ctx.strokes


def connectivity(ctx):
    def group_by_connectivity(self, *a, **k):
        ctx.got.append(('group_by_connectivity', bind('common.Collection:BaseCollection.group_by_connectivity', a, k)))
        return [ctx.one]
    return group_by_connectivity


def quiet(ctx): return lambda self, *a: self


def checked_table(c, got, clearance, width):
    made = [s for n, s in got if n == 'TableStructure']
    c.ensures('one structure is analysed', len(made) == 1)
    for s in made:
        if not isinstance(s, dict): unsupported('settings of a table structure')
        c.ensures('smallest clearance of borders reaches the structure', 'min_border_clearance' in s and eq(s['min_border_clearance'], clearance))
        c.ensures('largest border width reaches the structure', 'max_border_width' in s and eq(s['max_border_width'], width))


@contract('C19', 'table.TablesConstructor:TablesConstructor.lattice_tables', n=0, stubs={
    'shape.Shapes:Shapes.table_strokes': of_shapes, 'table.TablesConstructor:TableStructure': table_structure, 'common.Collection:BaseCollection.group_by_connectivity': connectivity,
    'common.Collection:BaseCollection.group': groups_of_one, 'page.Blocks:Blocks.assign_to_tables': quiet, 'shape.Shapes:Shapes.assign_to_tables': quiet,
    'common.Collection:Collection.contained_in_bbox': lambda ctx: (lambda self, *a: [])})
def lattice(c):
    l = layout(c)
    c.table, c.one = None, Rect1(c, 'strokes')
    c.strokes = c.mod('shape.Shapes').Shapes()
    shape = c.raw(c.mod('shape.Shape').Stroke, bbox=c.rect('s', nonempty=True), type=c.mod('common.share').RectType.BORDER)
    l.shapes._instances = [shape]
    gap, clearance, width = c.real('gap', 0, 9), c.real('clearance', 0, 9), c.real('width', 0, 9)
    vals = dict(connected_border_tolerance=gap, min_border_clearance=clearance, max_border_width=width)
    if set(parameters('table.TablesConstructor:TablesConstructor.lattice_tables')[0]) != set(vals): unsupported('parameters of lattice_tables')
    c.call(lambda: l._table_parser.lattice_tables(**vals))
    reach(c, c.got, 'group_by_connectivity', dx=gap, dy=gap)
    checked_table(c, c.got, clearance, width)


class Table1:
    _pyvc_stub = True
    num_cols = 2
    def set_stream_table_block(self): pass
    def __iter__(self): return iter(())


def lines_of_table(ctx):
    def stub(self, *a, **k):
        ctx.got.append(('collect', bind('page.Blocks:Blocks.collect_stream_lines', a, k)))
        return [[ctx.one]]
    return stub


def flow(ctx):
    def stub(self, *a, **k): ctx.got.append(('is_flow_layout', bind('text.Lines:Lines.is_flow_layout', a, k))); return True
    return stub


@contract('C19', 'table.TablesConstructor:TablesConstructor.stream_tables', n=0, stubs={
    'shape.Shapes:Shapes.table_strokes': of_shapes, 'shape.Shapes:Shapes.table_fillings': of_shapes, 'table.TablesConstructor:TableStructure': table_structure,
    'page.Blocks:Blocks.assign_to_tables': quiet, 'shape.Shapes:Shapes.assign_to_tables': quiet, 'page.Blocks:Blocks.collect_stream_lines': lines_of_table,
    'table.TablesConstructor:TablesConstructor._outer_borders': lambda ctx: (lambda *a: ()), 'table.TablesConstructor:TablesConstructor._stream_strokes': lambda ctx: (lambda *a: ctx.one),
    'text.Lines:Lines.is_flow_layout': flow, 'text.Lines:Lines.split_back': lambda ctx: (lambda self: []), **ONE_DIRECTION})
def stream(c):
    l = layout(c)
    l._parent = c.raw(c.mod('page.Page').Page, width=c.real('w', 1, 900), height=c.real('h', 1, 900), _margin=(0, 0, 0, 0))
    c.one, c.strokes, c.table = Rect1(c, 'lines'), Rect1(c, 'strokes'), Table1()
    l.blocks._instances = [text_block(c)]
    vals = dict(min_border_clearance=c.real('clearance', 0, 9), max_border_width=c.real('width', 0, 9), float_layout_tolerance=c.real('tolerance', 0, 1), line_separate_threshold=c.real('separate', 0, 9))
    if set(parameters('table.TablesConstructor:TablesConstructor.stream_tables')[0]) != set(vals): unsupported('parameters of stream_tables')
    c.call(lambda: l._table_parser.stream_tables(**vals))
    reach(c, c.got, 'collect', float_layout_tolerance=vals['float_layout_tolerance'], line_separate_threshold=vals['line_separate_threshold'])
    reach(c, c.got, 'is_flow_layout', float_layout_tolerance=vals['float_layout_tolerance'], line_separate_threshold=vals['line_separate_threshold'])
    checked_table(c, c.got, vals['min_border_clearance'], vals['max_border_width'])


def strokes_grouped(ctx):
    def stub(*a, **k): ctx.got.append(('TableStructure._group_h_v_strokes', bind('table.TableStructure:TableStructure._group_h_v_strokes', a, k))); return {}, {}
    return stub


@contract('C19', 'table.TableStructure:TableStructure.__init__', n=0, stubs={'table.TableStructure:TableStructure._group_h_v_strokes': strokes_grouped})
def structure(c):
    c.got = []
    given = c.choice('given', ['both', 'none'])
    a, b = c.real('clearance', 0, 9), c.real('width', 0, 9)
    s = {'min_border_clearance': a, 'max_border_width': b} if given == 'both' else None
    c.call(c.mod('table.TableStructure').TableStructure, c.mod('shape.Shapes').Shapes(), s)
    if given == 'both': reach(c, c.got, 'TableStructure._group_h_v_strokes', min_border_clearance=a, max_border_width=b)
    else: reach(c, c.got, 'TableStructure._group_h_v_strokes', min_border_clearance=DEFAULTS['min_border_clearance'], max_border_width=DEFAULTS['max_border_width'])


def alignments(which):
    t = f'text.TextBlock:TextBlock.{which}'
    def factory(ctx):
        def stub(self, *a, **k):
            ctx.got.append((which, bind(t, a, k)))
            A = ctx.mod('common.share').TextAlignment
            return A.LEFT
        return stub
    return {t: factory}


@contract('C19', 'text.TextBlock:TextBlock.parse_horizontal_spacing', n=0, stubs={**alignments('_internal_alignment'), **alignments('_external_alignment'), **recorder('text.Lines:Lines.parse_line_break'), **ONE_DIRECTION})
def horizontal(c):
    c.got = []
    b = text_block(c)
    b.left_space_total, b.right_space_total = c.real('left', 0, 99), c.real('right', 0, 99)
    vals = {k: c.real(k, 0, 9) for k in FORMAT}
    if set(parameters('text.TextBlock:TextBlock.parse_horizontal_spacing')[0]) != set(vals) | {'bbox'}: unsupported('parameters of parse_horizontal_spacing')
    box = c.rect('page', nonempty=True)
    c.call(lambda: b.parse_horizontal_spacing(box, **vals))
    reach(c, c.got, '_internal_alignment', **{k: vals[k] for k in FORMAT if k != 'line_free_space_ratio_threshold'})
    reach(c, c.got, '_external_alignment', lines_center_aligned_threshold=vals['lines_center_aligned_threshold'])
    reach(c, c.got, 'Lines.parse_line_break', line_free_space_ratio_threshold=vals['line_free_space_ratio_threshold'])


# ------------------------------------------------ reading the page
def extract(which):
    def factory(ctx):
        def stub(*a, **k):
            a = [x for x in a if not isinstance(x, type)]
            ctx.got.append((which, bind(f'image.ImagesExtractor:ImagesExtractor.{which}', a, k)))
            return []
        return stub
    return {f'image.ImagesExtractor:ImagesExtractor.{which}': factory}


def vector_paths(ctx):
    def stub(self, *a, **k): ctx.got.append(('to_shapes', bind('shape.Paths:Paths.to_shapes', a, k))); return [], [], True
    return stub


@contract('C19', 'page.RawPage:RawPage._preprocess_images', n=0, stubs=extract('extract_images'))
def raw_images(c):
    c.got = []
    s = settings(c)
    p = c.raw(c.mod('page.Page').Page, settings=s, fitz_page=object())
    c.call(p._preprocess_images, {'blocks': []})
    reach(c, c.got, 'extract_images', clip_image_res_ratio=s['clip_image_res_ratio'])


class FitzPage:
    _pyvc_stub = True
    rotationMatrix = (1.0, 0.0, 0.0, 1.0, 0.0, 0.0)


@contract('C19', 'page.RawPage:RawPage._preprocess_shapes', n=0, stubs={**extract('extract_vector_graphics'), 'shape.Paths:Paths.to_shapes': vector_paths, 'shape.Paths:Paths.restore': quiet,
    'page.RawPage:RawPage._get_drawings': lambda ctx: (lambda page: []), 'page.RawPage:RawPage._preprocess_hyperlinks': lambda ctx: (lambda page: [])})
def raw_shapes(c):
    c.got = []
    s = settings(c)
    s['debug'] = False
    p = c.raw(c.mod('page.Page').Page, settings=s, fitz_page=FitzPage())
    c.call(p._preprocess_shapes, {'blocks': []})
    reach(c, c.got, 'to_shapes', curve_path_ratio=s['curve_path_ratio'])
    reach(c, c.got, 'extract_vector_graphics', clip_image_res_ratio=s['clip_image_res_ratio'])


@contract('C19', 'page.Page:Page.extract_tables', n=0, stubs={'table.TableBlock:TableBlock.text': lambda ctx: (lambda self: self.name)})
def stream_or_not(c):
    T, B = c.mod('table.TableBlock').TableBlock, c.mod('common.share').BlockType
    both = c.choice('stream tables too', [False, True])
    kinds = [c.choice(f'kind{i}', ['lattice', 'stream', 'text']) for i in range(3)]
    bs = []
    for i, k in enumerate(kinds):
        t = c.raw(T, name=i)
        t._type = {'lattice': B.LATTICE_TABLE, 'stream': B.STREAM_TABLE, 'text': B.TEXT}[k]
        bs.append(t)
    l = layout_of(c)
    l.blocks._instances = bs
    p = c.raw(c.mod('page.Page').Page, settings={'extract_stream_table': both}, layout=l)
    r = c.call(p.extract_tables)
    want = [i for i, k in enumerate(kinds) if k == 'lattice' or k == 'stream' and both]
    c.ensures('ruled tables, and the others if asked for, in order', list(r) == want)


# ------------------------------------------------ from the caller to the pages
def parse_with(ctx):
    def stub(self, settings=None):
        ctx.ensures('every page is analysed with the settings of the caller', settings is ctx.kw)
        self._finalized = True
        return self
    return stub


@contract('C19', 'converter:Converter.parse', n=0, stubs={'page.Page:Page.parse': parse_with}, loops={0: Loop(inv=lambda L: [
    ('as many pages analysed as visited', forall(0, L.k_, lambda j: at(L.self._pages, at(L.page_indexes, j))._finalized))])})
def all_pages(c):
    C = c.mod('converter').Converter
    ps = c.list('pages', ('obj', 'page.Page:Page'))
    c.requires(distinct(ps))
    cv = c.raw(C, _pages=ps, filename_pdf='a.pdf')
    idx = c.list('page_indexes', 'int')
    c.requires(forall(0, Len(idx), lambda j: And(at(idx, j) >= 0, at(idx, j) < Len(ps))))
    c.kw = c.choice('settings', [None, {}, {'max_border_width': 2.0}])
    c.call(cv.parse, idx, c.kw)
    c.ensures('every selected page is analysed', forall(0, Len(idx), lambda j: at(ps, at(idx, j))._finalized))


def passing(name):
    def factory(ctx):
        def stub(self, *a, **k):
            ctx.got.append((name, bind(f'converter:Converter.{name}', a, k)))
            return self
        return stub
    return {f'converter:Converter.{name}': factory}


@contract('C19', 'converter:Converter.convert', n=0, stubs={**passing('_parse_and_create_pages'), **passing('_parse_and_create_pages_with_multi_processing'), **passing('_ignore_parsed_pages')})
def through_convert(c):
    c.got = []
    kw = c.choice('settings', [{}, {'max_border_width': 2.0}, {'multi_processing': True, 'cpu_count': 2, 'curve_path_ratio': 0.9}])
    before = dict(kw)
    cv = c.raw(c.mod('converter').Converter, _pages=[1, 2], filename_pdf='a.pdf')
    c.call(lambda: cv.convert('a.docx', kwargs=kw))
    c.ensures('the settings of the caller stay as they are', kw == before)
    got = [g for n, g in c.got if n != '_ignore_parsed_pages']
    c.ensures('all settings are passed on', len(got) == 1 and {k: v for k, v in got[0]['kwargs'].items() if k in kw} == kw)


@contract('C19', 'converter:Converter._parse_and_create_pages', n=0, stubs={**passing('parse'), **passing('make_docx')})
def through_serial(c):
    c.got = []
    kw = {'max_border_width': 2.0}
    cv = c.raw(c.mod('converter').Converter, _pages=[1, 2], filename_pdf='a.pdf')
    c.call(cv._parse_and_create_pages, 'a.docx', [0], kw)
    c.ensures('all settings are passed on', [g['kwargs'] for n, g in c.got if n == 'parse'] == [kw])


@contract('C19', 'converter:Converter.extract_tables', n=0, stubs={**passing('parse'), **passing('_ignore_parsed_pages')})
def through_tables(c):
    c.got = []
    kw = c.choice('settings', [{}, {'max_border_width': 2.0, 'extract_stream_table': True}])
    before = dict(kw)
    cv = c.raw(c.mod('converter').Converter, _pages=[], filename_pdf='a.pdf')
    c.call(lambda: cv.extract_tables(kwargs=kw))
    c.ensures('the settings of the caller stay as they are', kw == before)
    c.ensures('all settings are passed on', [g['kwargs'] for n, g in c.got if n == 'parse'] == [kw])


class WorkerOf:
    _pyvc_stub = True
    def __init__(self, c): self.c = c
    def parse(self, page_indexes=None, kwargs=None): self.c.got.append(kwargs); return self
    def serialize(self, f): pass
    def close(self): pass


@contract('C19', 'converter:Converter._parse_pages_per_cpu', n=0)
def through_worker(c):
    c.got = []
    m = c.mod('converter')
    kw = {'max_border_width': c.real('width', 0, 9)}
    real, old = m.Converter._parse_pages_per_cpu, m.Converter
    m.Converter = lambda pdf: WorkerOf(c)
    try: c.call(real, (0, 1, [0, 1], 'a.pdf', kw, 'x.json'))
    finally: m.Converter = old
    c.ensures('the settings of the caller', len(c.got) == 1 and c.got[0] is kw)


@contract('C19', 'converter:Converter.debug_page', n=0, stubs={**passing('convert'), **passing('serialize')})
def through_debug(c):
    c.got = []
    kw = c.choice('settings', [None, {}, {'max_border_width': 2.0}])
    before = dict(kw) if kw is not None else None
    cv = c.raw(c.mod('converter').Converter, _pages=[1, 2], filename_pdf='a.pdf')
    c.call(lambda: cv.debug_page(1, 'a.docx', 'd.pdf', 'l.json', kwargs=kw))
    got = [g for n, g in c.got if n == 'convert']
    c.ensures('the page asked for', len(got) == 1 and list(got[0].get('pages') or []) == [1])
    c.ensures('the settings of the caller, drawing turned on', len(got) == 1 and all(got[0]['kwargs'].get(k) == v for k, v in (before or {}).items()) and got[0]['kwargs'].get('debug') is True)
    c.ensures('the settings of the caller stay as they are', kw == before)
