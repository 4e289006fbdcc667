"""Writes properties.jsonl and MANIFEST.json (run by hand after edits)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = 'orient/core/'
DEF = ('Relations are those of the point sets: DISJOINT, TOUCH, CROSS, '
       'OVERLAP, COVER, ENCLOSES, COMPOSITE, EQUAL, COMPONENT, ENCLOSED, '
       'WITHIN as defined by ground.base.Relation.')
TESTS = ('The unit tests sample a few relations of generated geometries with '
         'weak laws (types of results, self relation, complement); they '
         'hardly ever produce shared vertices, partially overlapping edges '
         'and touching parts, and know no expected answer in general.')
P = []


def add(id_, title, statement, over, text, why, files, mechanism, observe,
        technique, note, state=None):
    P.append(dict(id=id_, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mechanism=mechanism,
                  observe=observe, technique=technique, note=note))


ORACLE = 'runtime monitor: answers compared with an exact reference model'
ONOTE = ('every observed answer is compared with an independent O(n^2) exact '
         'model on random pictures of nine families, respelled, mapped '
         'affinely and written in several numeric types; held on the '
         'observed executions only; trusts Python integers, the model and '
         'the ground package')
ANY = ('every pair of valid geometries (ground.hints preconditions) of any '
       'size, position, spelling and exact coordinates')

add('P01', 'Location of a point in a segment, multisegment, contour',
    'The location of a point in a segment, a multisegment or a contour is '
    'BOUNDARY exactly when the point belongs to it, and EXTERIOR otherwise.',
    ['inputs'], ANY, TESTS,
    [C + 'segment.py', C + 'multisegment.py', C + 'contour.py'],
    [('containment in one of the segments', C + 'segment.py locate_point')],
    ['point_in_segment', 'point_in_multisegment', 'point_in_contour'],
    ORACLE, ONOTE)
add('P02', 'Location of a point in region, multiregion, polygon, multipolygon',
    'The location of a point in an areal geometry is INTERIOR exactly when '
    'the point is inside of it, BOUNDARY when it lies on one of its borders '
    '(holes included), EXTERIOR otherwise, points inside holes included.',
    ['inputs'], ANY, TESTS,
    [C + 'region.py', C + 'multiregion.py', C + 'polygon.py',
     C + 'multipolygon.py'],
    [('ray casting by orientation', C + 'region.py _locate_point'),
     ('holes exclude', C + 'polygon.py locate_point')],
    ['point_in_region', 'point_in_multiregion', 'point_in_polygon',
     'point_in_multipolygon'], ORACLE, ONOTE)
add('P03', 'Relation of a segment with a segment and a multisegment',
    'The relation of a segment with a segment or with a multisegment is the '
    'one of their point sets, also when several pieces of the multisegment '
    'cover parts of the segment, touch it or meet it at common points. '
    + DEF, ['inputs'], ANY, TESTS,
    [C + 'segment.py', C + 'multisegment.py'],
    [('exact relation of segments', C + 'segment.py relate_segment'),
     ('subtraction of covered pieces, orientations of touching ends',
      C + 'multisegment.py relate_segment')],
    ['segment_in_segment', 'segment_in_multisegment'], ORACLE, ONOTE)
add('P04', 'Relation of a multisegment with a multisegment',
    'The relation of two multisegments is the one of their point sets, '
    'whatever way they are cut into segments; CROSS exactly when at some '
    'common point pieces of both alternate around it. ' + DEF,
    ['inputs'], ANY, TESTS,
    [C + 'multisegment.py', C + 'events_queue.py', C + 'processing.py',
     C + 'sweep_line.py', C + 'event.py'],
    [('sweep with order of segments around common points',
      C + 'events_queue.py LinearEventsQueue'),
     ('verdict', C + 'processing.py process_open_linear_queue')],
    ['multisegment_in_multisegment'], ORACLE, ONOTE)
add('P05', 'Relation of a segment, multisegment, contour with a contour',
    'The relation of a segment, a multisegment or a contour with a contour '
    'is the one of their point sets as closed polylines (what the contour '
    'encloses plays no role). ' + DEF, ['inputs'], ANY, TESTS,
    [C + 'contour.py', C + 'events_queue.py', C + 'processing.py'],
    [('segment along consecutive edges', C + 'contour.py relate_segment'),
     ('verdict', C + 'processing.py process_closed_linear_queue')],
    ['segment_in_contour', 'multisegment_in_contour', 'contour_in_contour'],
    ORACLE, ONOTE)
add('P06', 'Relation of a segment with a region',
    'The relation of a segment with a region tells whether the segment has '
    'parts inside, outside and on the border of the region, also when it '
    'passes through vertices or runs along edges. ' + DEF,
    ['inputs'], ANY, TESTS, [C + 'region.py'],
    [('sides of touched edges', C + 'region.py relate_segment')],
    ['segment_in_region'], ORACLE, ONOTE)
add('P07', 'Relation of a multisegment and a contour with a region',
    'The relation of a multisegment or a contour with a region tells whether '
    'the linear geometry has parts inside, outside and on the border of the '
    'region. ' + DEF, ['inputs'], ANY, TESTS,
    [C + 'region.py', C + 'processing.py', C + 'events_queue.py'],
    [('sweep with inside flags', C + 'events_queue.py CompoundEventsQueue'),
     ('verdict', C + 'processing.py process_linear_compound_queue')],
    ['multisegment_in_region', 'contour_in_region'], ORACLE, ONOTE)
add('P08', 'Relation of linear geometries with a multiregion',
    'The relation of a segment, a multisegment or a contour with a '
    'multiregion is the one with the union of its regions: parts in several '
    'regions, common vertices of regions and gaps between them count as they '
    'are. ' + DEF, ['inputs'], ANY, TESTS,
    [C + 'multiregion.py', C + 'processing.py', C + 'events_queue.py'],
    [('one sweep over all regions', C + 'multiregion.py')],
    ['segment_in_multiregion', 'multisegment_in_multiregion',
     'contour_in_multiregion'], ORACLE, ONOTE)
add('P09', 'Relation of linear geometries with a polygon',
    'The relation of a segment, a multisegment or a contour with a polygon '
    'accounts for its holes: what lies in a hole is outside, borders of '
    'holes are border, holes may touch the border and one another. ' + DEF,
    ['inputs'], ANY, TESTS, [C + 'polygon.py', C + 'processing.py'],
    [('border and holes combined', C + 'polygon.py')],
    ['segment_in_polygon', 'multisegment_in_polygon', 'contour_in_polygon'],
    ORACLE, ONOTE)
add('P10', 'Relation of linear geometries with a multipolygon',
    'The relation of a segment, a multisegment or a contour with a '
    'multipolygon is the one with the union of its polygons, with holes and '
    'polygons nested in holes of others. ' + DEF, ['inputs'], ANY, TESTS,
    [C + 'multipolygon.py', C + 'processing.py'],
    [('one sweep over all borders and holes', C + 'multipolygon.py')],
    ['segment_in_multipolygon', 'multisegment_in_multipolygon',
     'contour_in_multipolygon'], ORACLE, ONOTE)
add('P11', 'Relation of regions and multiregions with one another',
    'The relation of a region with a region or a multiregion, and of two '
    'multiregions, is the one of the areas they cover. ' + DEF,
    ['inputs'], ANY, TESTS,
    [C + 'region.py', C + 'multiregion.py', C + 'contour.py',
     C + 'processing.py', C + 'events_queue.py'],
    [('sweep with sides of both geometries',
      C + 'events_queue.py CompoundEventsQueue'),
     ('verdict', C + 'processing.py process_compound_queue')],
    ['region_in_region', 'region_in_multiregion',
     'multiregion_in_multiregion'], ORACLE, ONOTE)
add('P12', 'Relation of region, multiregion, polygon with a polygon',
    'The relation of a region, a multiregion or a polygon with a polygon is '
    'the one of the areas they cover, holes of both sides subtracted. '
    + DEF, ['inputs'], ANY, TESTS,
    [C + 'polygon.py', C + 'multiregion.py', C + 'region.py'],
    [('relation of borders refined by relations of holes',
      C + 'polygon.py relate_polygon')],
    ['region_in_polygon', 'multiregion_in_polygon', 'polygon_in_polygon'],
    ORACLE, ONOTE)
add('P13', 'Relation of areal geometries with a multipolygon',
    'The relation of a region, a multiregion, a polygon or a multipolygon '
    'with a multipolygon is the one of the areas they cover, with holes and '
    'with polygons nested in holes. ' + DEF, ['inputs'], ANY, TESTS,
    [C + 'multipolygon.py', C + 'processing.py'],
    [('one sweep over all borders and holes', C + 'multipolygon.py')],
    ['region_in_multipolygon', 'multiregion_in_multipolygon',
     'polygon_in_multipolygon', 'multipolygon_in_multipolygon'],
    ORACLE, ONOTE)
add('P14', 'Answers depend on the point sets, not on how they are written',
    'Answers do not change with the vertex a contour starts from, its '
    'direction, the order of segments, holes and parts, the direction of '
    'segments, collinear segments cut or joined, or another kind of geometry '
    'spelling the same point set (a contour as a multisegment, a region as a '
    'polygon without holes or a multipolygon of one part).',
    ['inputs'], 'every valid pair and every respelling of both sides', TESTS,
    [C + 'contour.py', C + 'multisegment.py', C + 'multiregion.py',
     C + 'polygon.py', C + 'multipolygon.py'],
    [('orientation of contours normalised', C + 'contour.py'),
     ('endpoints sorted', C + 'event.py from_endpoints')],
    ['all functions of orient.planar'],
    'runtime monitor: metamorphic relation between observed answers',
    'compares four random respellings with the first answer; no model '
    'involved; held on the observed executions only')
add('P15', 'Swapping the arguments complements the relation',
    'For geometries of the same dimension the relation of B with A is the '
    'complement of the relation of A with B: COVER and WITHIN, ENCLOSES and '
    'ENCLOSED, COMPOSITE and COMPONENT trade places, all the others stay.',
    ['inputs'], 'every valid pair of linear geometries, every valid pair of '
    'areal geometries, both argument orders', TESTS,
    [C + 'processing.py', C + 'polygon.py', C + 'contour.py'],
    [('symmetric flags of both sides', C + 'processing.py')],
    ['all functions of orient.planar on two linear or two areal kinds'],
    'runtime monitor: metamorphic relation between observed answers',
    'swaps arguments in all spellings a function exists for; no model '
    'involved; held on the observed executions only')
add('P16', 'Exact affine maps of both arguments change nothing',
    'Moving, scaling (per axis too), mirroring, rotating by right angles, '
    'shearing, or any other invertible affine map applied exactly to both '
    'arguments leaves every answer as it is, for coordinates of any '
    'magnitude and nearly degenerate pictures.',
    ['inputs'], 'every valid pair and every exact invertible affine map',
    TESTS, [C + 'sweep_line.py', C + 'events_queue.py', C + 'box.py',
            C + 'region.py'],
    [('all decisions by exact predicates', C + 'sweep_line.py'),
     ('order of events', C + 'events_queue.py EventsQueueKey')],
    ['all functions of orient.planar'],
    'runtime monitor: metamorphic relation between observed answers',
    'compares three random images with the first answer; no model involved; '
    'held on the observed executions only')
add('P17', 'Numerically equal coordinates act the same in any numeric type',
    'Coordinates written as int, float, Fraction or a mixture of them give '
    'the same answer as long as their values are equal; no rounding, '
    'overflow or tolerance takes part at any magnitude.',
    ['inputs'], 'every valid pair with every exact way to write its '
    'coordinates', TESTS,
    [C + 'sweep_line.py', C + 'events_queue.py', C + 'region.py'],
    [('exact predicates of the context', 'orient/planar.py')],
    ['all functions of orient.planar'],
    'runtime monitor: metamorphic relation between observed answers',
    'compares five ways of writing the coordinates; no model involved; held '
    'on the observed executions only')
add('P18', 'Functions are pure: no mutation, no memory, no cross-talk',
    'A call never changes its arguments or writes output, and its answer '
    'depends on the contents of the arguments at the time of the call only: '
    'not on earlier calls, on objects being shared between or inside the '
    'arguments, on the caller editing the lists inside of a geometry between '
    'calls, or on other threads calling at the same time.',
    ['histories', 'schedules', 'inputs'],
    'every sequence of calls and edits of live objects, every interleaving '
    'of threads calling on shared geometries',
    'The tests call each function once per fresh object in one thread.',
    ['orient/planar.py', C + 'events_queue.py', C + 'contour.py',
     C + 'multiregion.py', C + 'polygon.py'],
    [('all state is local to a call', C + 'events_queue.py')],
    ['all functions of orient.planar', 'snapshots of arguments', 'stdout'],
    'runtime monitor: recorded histories against a sequential model, '
    'argument snapshots, thread stress',
    'random histories and threads with a 1 us switch interval; schedules '
    'are sampled by the interpreter, not enumerated')
add('P19', 'The given context, and only it, is used',
    'A context passed to a function is the one all of its work is done with, '
    'for any classes implementing the ground.hints interfaces and any mode '
    'of arithmetic; the ambient context is then neither used nor changed, '
    'and it is used when none or None is passed.',
    ['inputs', 'configurations'],
    'every function, valid pair, implementation of the interfaces and mode '
    'exact for the coordinates used',
    'The tests use the context of their session and classes of ground for '
    'every call.',
    ['orient/planar.py', C + 'contour.py', C + 'region.py',
     C + 'multiregion.py', C + 'polygon.py', C + 'multipolygon.py'],
    [('context handed down explicitly', 'orient/planar.py')],
    ['all functions of orient.planar', 'members of the contexts',
     'get_context'],
    'runtime monitor: watched and forbidden contexts, own geometry classes, '
    'answers compared with the reference model',
    'an ambient context raising on any use, contexts counting uses, classes '
    'with the members of the interfaces only; held on the observed '
    'executions only')
add('P20', 'Every valid input gets an answer from the documented set',
    'For valid arguments every function returns, raises nothing, and its '
    'answer is one possible for the dimensions of the arguments: never '
    'INTERIOR for a point in a linear geometry, never OVERLAP, COVER, '
    'ENCLOSES, COMPOSITE or EQUAL for linear in areal, never CROSS for two '
    'areal geometries.',
    ['inputs'], 'every valid pair, with subnormal, neighbouring and huge '
    'floats, thousands of edges and dozens of edges at one point included',
    'The tests use small geometries with moderate coordinates.',
    ['orient/planar.py', C + 'events_queue.py', C + 'sweep_line.py',
     C + 'processing.py'],
    [('verdicts', C + 'processing.py'),
     ('overlap of own segments rejected',
      C + 'events_queue.py detect_intersection')],
    ['all functions of orient.planar', 'exceptions', 'executed branches'],
    'runtime monitor: vocabulary and exception monitor under a branch '
    'budget, answers known by construction or from the reference model',
    'termination is restated as a bound of 40 million branches on inputs of '
    'at most thousands of edges; held on the observed executions only')
add('P21', 'Work grows as the documentation promises',
    'With bounded vertex degrees and a linear number of contacts the amount '
    'of work grows linearly with the number of edges for point location and '
    'for a segment with a multisegment, a contour or a region, is constant '
    'for single segments, and grows as n log n for all the other functions.',
    ['inputs'], 'every family of growing valid inputs with bounded vertex '
    'degrees and linearly many contacts',
    'The tests never measure work and use small inputs.',
    ['orient/planar.py', C + 'sweep_line.py', C + 'events_queue.py',
     C + 'region.py', C + 'polygon.py'],
    [('balanced tree of active segments', C + 'sweep_line.py'),
     ('priority queue of events', C + 'events_queue.py')],
    ['executed function entries and jumps'],
    'runtime monitor: deterministic work counters at growing sizes',
    'growth of counted branches over 28 layouts of each function; work '
    'inside C code is not seen; two listed findings')
add('P22', 'The whole and its parts agree',
    'The relation with (or of) a compound geometry is consistent with the '
    'relations with (or of) its parts: a segment of a multisegment, a region '
    'of a multiregion, a polygon of a multipolygon, border and holes of a '
    'polygon.',
    ['inputs'], 'every valid pair with at least one compound side', TESTS,
    [C + 'multiregion.py', C + 'multipolygon.py', C + 'polygon.py',
     C + 'multisegment.py', C + 'contour.py'],
    [('one sweep over all parts', C + 'multipolygon.py'),
     ('combination of parts', C + 'polygon.py')],
    ['all functions of orient.planar'],
    'runtime monitor: consistency law over several observed answers',
    'allowed combinations are derived from set laws; no model involved; '
    'held on the observed executions only')
add('P23', 'Relations agree with locations of single points',
    'A relation never contradicts the point functions: subset relations '
    'leave no point of the test outside of the goal, DISJOINT geometries '
    'share no point, interiors do not meet under TOUCH, borders do not meet '
    'under WITHIN and COVER.',
    ['inputs'], 'every valid pair and every point of its arguments', TESTS,
    [C + 'region.py', C + 'processing.py', C + 'polygon.py'],
    [('point location', C + 'region.py locate_point'),
     ('sweep', C + 'events_queue.py')],
    ['all functions of orient.planar'],
    'runtime monitor: consistency law over several observed answers',
    'vertices and points between contacts are located; no model of '
    'relations involved; held on the observed executions only')
add('P24', 'Subset relations form an order',
    'A geometry is EQUAL to itself; a subset of a subset is a subset, '
    'strictly inside stays strictly inside, and a subset of a geometry '
    'disjoint with a third one is disjoint with it.',
    ['inputs'], 'every triple of valid geometries', TESTS,
    [C + 'processing.py', C + 'polygon.py', C + 'multiregion.py'],
    [('subset flags', C + 'processing.py')],
    ['all functions of orient.planar'],
    'runtime monitor: consistency law over several observed answers',
    'triples drawn on one subdivision of the plane so that premises hold '
    'often; held on the observed executions only')
add('P25', 'Answers stay right on inputs of hundreds of edges',
    'The relation or location is the one of the point sets also for '
    'geometries of hundreds of edges, with many parts, many holes and deep '
    'states of the sweep, where many events and rebalancings of the sweep '
    'line happen in one call. ' + DEF, ['inputs'], ANY, TESTS
    + ' Their geometries have about ten vertices.',
    [C + 'sweep_line.py', C + 'events_queue.py', C + 'event.py',
     C + 'processing.py'],
    [('balanced tree of active segments', C + 'sweep_line.py'),
     ('division of segments at contacts', C + 'events_queue.py')],
    ['all functions of orient.planar'], ORACLE,
    'as the other reference checks, on subdivisions, stars, combs and '
    'lattices of up to about a thousand edges')

add('P26', 'Memory stays within bounds and is given back',
    'With bounded vertex degrees and a linear number of contacts the memory '
    'needed during a call is constant for a point with a segment or a '
    'multisegment and for two segments, at most proportional to the largest '
    'contour for a point with any other geometry, and at most proportional '
    'to the number of edges for all the other functions. After the call, '
    'once the caller drops its arguments, nothing made for it stays '
    'allocated, after any number of calls.',
    ['inputs', 'histories'], 'every family of growing valid inputs with '
    'bounded vertex degrees and linearly many contacts; every sequence of '
    'calls',
    'The tests never measure memory and use small inputs.',
    ['orient/planar.py', C + 'events_queue.py', C + 'sweep_line.py',
     C + 'event.py', C + 'multisegment.py'],
    [('events of one call', C + 'events_queue.py'),
     ('point location by one pass over edges', C + 'multisegment.py '
      'locate_point')],
    ['allocations traced by tracemalloc below the call, what is left after '
     'the arguments are dropped'],
    'runtime monitor: traced allocations at growing sizes and after calls',
    'peak bytes at two sizes of 28 layouts of each function and bytes kept '
    'after single big calls and after histories of small ones; memory of C '
    'code outside of Python allocators is not seen')


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as file:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            file.write(json.dumps({
                'id': p['id'], 'title': p['title'],
                'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {
                    'files': p['files'],
                    'mechanism': [{'name': n, 'where': w}
                                  for n, w in p['mechanism']],
                    'observe_at': p['observe'], 'hook_needed': None}})
                + '\n')
    run = '/opt/venv/bin/python -B run.py --property {} --tier {}'
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as file:
        json.dump({
            'version': 1,
            'setup_cmd': '/opt/venv/bin/python -B run.py --list',
            'checks': [{
                'property': p['id'],
                'quick_cmd': run.format(p['id'], 'quick'),
                'thorough_cmd': run.format(p['id'], 'thorough'),
                'evidence_file': f"evidence/{p['id']}.json",
                'technique': p['technique'], 'level': 'exploration',
                'level_note': p['note']} for p in P],
            'not_applicable': [],
            'notes': 'No hooks in /repo: everything is observed at the '
                     'public boundary of orient.planar. The code has no '
                     'native parts, so compiler sanitizers do not apply.'
        }, file, indent=1)
        file.write('\n')


main()
