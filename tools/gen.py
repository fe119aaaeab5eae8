#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json (run by hand after editing the data below)."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'resim/transforms/'
CU = 'resim/curves/'
PROPS = []


def P(id, title, statement, over, text, why, files, mech, note=None, na=None, tech=None):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), note=note, na=na, tech=tech))


P('C01', 'Rotations form a group acting on vectors',
  'Composing, inverting and applying rotations behaves as the rotation group: the product is the matrix product and again a '
  'rotation, composition is associative, identity and inverse laws hold, and applying a rotation is a homomorphic action that '
  'preserves lengths and angles. Every way of constructing a rotation (quaternion, angle-axis, angle and axis, identity) denotes '
  'that rotation and its quaternion and matrix read back as the same rotation.',
  ['inputs'], 'all rotations, all vectors, all angles and axes',
  'Unit tests multiply a few random rotations and compare to a tolerance; a wrong branch or sign on a measure-zero or rare region '
  'is never sampled.', [T + 'so3.cc', T + 'so3.hh'], [('composition, inverse, action', T + 'so3.cc'), ('constructors', T + 'so3.cc')])
P('C02', 'Rigid transforms form a group acting on points',
  'Composing, inverting and applying rigid transforms behaves as the group of rigid motions: the product is the homogeneous matrix '
  'product with a rotation as its rotation part, composition is associative, identity and inverse laws hold, and the action on '
  'points is rigid and homomorphic while rotating a vector applies only the rotation. Constructors from a rotation, a translation or '
  'both denote exactly that transform.',
  ['inputs'], 'all poses and points', 'Tests sample random poses; they never establish the laws for every pose.',
  [T + 'se3.cc', T + 'se3.hh'], [('composition, inverse, action', T + 'se3.cc'), ('constructors', T + 'se3.cc')])
P('C03', 'Rotation exponential and logarithm are mutually inverse',
  'The exponential of a rotation vector is the rotation about it by its length (identity at zero), negating the vector inverts the '
  'rotation and scaling it moves along a one-parameter subgroup. The logarithm of every rotation, including those by exactly pi and '
  'arbitrarily close to the identity, is a vector no longer than pi whose exponential is that rotation, and it recovers every vector '
  'shorter than pi from its exponential.',
  ['inputs'], 'all tangent vectors and all rotations, including the angle-0 and angle-pi cases',
  'The interesting branches (tiny angles, angles near pi) have tiny or zero measure under random sampling.',
  [T + 'so3.cc', T + 'so3.hh'], [('exp', T + 'so3.cc'), ('log and its branches', T + 'so3.cc')])
P('C04', 'Rigid-transform exponential and logarithm are mutually inverse',
  'The exponential of a twist is the pose reached by following that constant twist for unit time, for every twist including those '
  'with zero or tiny rotation. The exponential of the logarithm of any pose is that pose, the logarithm of a pure translation is that '
  'translation, and the helper coefficients are the analytic ones at every angle including zero.',
  ['inputs'], 'all twists and poses', 'Series and closed forms switch on thresholds that random tests rarely straddle; a wrong coefficient in the '
  'rarely used branch passes.', [T + 'se3.cc', T + 'so3.cc'],
  [('exp/log', T + 'se3.cc'), ('exp differential coefficients', T + 'so3.cc')])
P('C05', 'Adjoints, brackets and exponential differential are the right ones',
  'For rotations and rigid transforms, the group adjoint moves a tangent vector exactly as conjugation does and is a homomorphism, '
  'and the algebra adjoint is the Lie bracket, in both the matrix and the direct forms. The differential of the rotation exponential '
  'is its true derivative at every vector, including zero, and splitting a twist into rotation and translation parts and '
  'reassembling it is lossless.',
  ['inputs'], 'all group elements and tangent vectors', 'Tests compare against finite differences at sampled points with loose tolerances.',
  [T + 'so3.cc', T + 'se3.cc'], [('adjoint_times, adjoint, exp_diff', T + 'so3.cc'), ('adjoint_times, adjoint, twist parts', T + 'se3.cc')])
P('C06', 'Coordinate frames are tracked and mismatches rejected',
  'Combining framed transforms or framed vectors is rejected exactly when the frames that must meet differ or a required frame is '
  'missing; otherwise the result carries the frames implied by the operation (outer frames for composition, swapped for inversion, '
  'target frame for an acted-on vector, both or the new source frame for interpolation) and an unframed operand gives an unframed '
  'composition. Setting frames gives exactly the frames asked for, a new frame (and that of a vector built without one) is not null and differs from all others, no constructor or setter can produce a transform with only one frame, and a rejected operation changes nothing.',
  ['inputs'], 'all frame assignments (equal, distinct, null, absent) and all numeric values',
  'Tests fix a handful of named frames; the guarantee is about every combination on every constructor and operation.',
  [T + 'liegroup.hh', T + 'frame.hh', T + 'framed_vector.hh', T + 'so3.cc', T + 'se3.cc'],
  [('frame checks', T + 'liegroup.hh'), ('framed vectors', T + 'framed_vector.hh'), ('frame identity', T + 'frame.hh')])
P('C07', 'Distances, interpolation and approximate equality are geometrically right',
  'The distance between two poses is the distance between the corresponding points in the stated frame, with incompatible frames '
  'rejected, and arc length is the length of the translation part of the logarithm. Interpolating a transform by a fraction moves '
  'along its one-parameter subgroup by that fraction (0 gives the identity, 1 the transform) and never loses frames. Approximate '
  'equality accepts equal transforms with equal frames and never accepts transforms that clearly differ in value or frame.',
  ['inputs'], 'all pairs of poses, all fractions', 'Random pairs do not reach coincident points with different rotations or exact antipodes.',
  [T + 'se3.cc', T + 'so3.cc', T + 'liegroup.hh'],
  [('distance, arc length', T + 'se3.cc'), ('interp', T + 'liegroup.hh'), ('is_approx', T + 'so3.cc')])
P('C08', 'Two-jets obey the calculus of curves on the group',
  'A value with first and second derivative along a curve behaves like the curve itself: the product of two jets is the jet of the '
  'product curve, the inverse is the jet of the inverse curve, and converting between left and right derivatives preserves the curve '
  'and converts back exactly, for rotations and for rigid transforms. Frames follow the group operation, setters change only their '
  'component, and approximate equality accepts identical jets and rejects jets that clearly differ in any component.',
  ['inputs'], 'all jets of both groups and both sides', 'Tests check random jets against numeric differences with wide tolerances.',
  [CU + 'two_jet.cc', CU + 'two_jet.hh'], [('product, inverse, left/right conversion', CU + 'two_jet.cc')])
P('C09', 'Curve segments join their end states smoothly',
  'A segment between two states starts exactly at the first and ends exactly at the second in pose, velocity and acceleration. At every '
  'intermediate parameter the reported velocity and acceleration are the true derivatives of the reported pose; the underlying '
  'blending polynomials are the quintic Hermite basis with correct derivatives. Building a segment from states whose frames differ is '
  'rejected, and every point carries the segment\'s frames.',
  ['inputs'], 'all end states of both groups, all parameters', 'Tests sample parameters and compare with numeric differentiation.',
  [CU + 't_curve_segment.cc', CU + 'quintic_poly_coeffs.cc', CU + 'quintic_poly_coeffs.hh', CU + 't_curve_segment.hh'],
  [('segment evaluation', CU + 't_curve_segment.cc'), ('blending polynomials', CU + 'quintic_poly_coeffs.cc')])
P('C10', 'Time-parametrised curves pass through their control points',
  'A curve built from timed states passes through each of them at its time with that pose, velocity and acceleration, and between them the '
  'reported velocity and acceleration are the time derivatives of the reported pose in seconds. A control point whose time is not later '
  'than the last one or whose frames differ is rejected and leaves the curve unchanged, building in bulk equals appending in order, '
  'and a query outside the time range or on a curve with fewer than two points is rejected.',
  ['inputs', 'histories'], 'all sequences of control points (accepted and rejected), all query times',
  'Tests use a few fixed curves and sampled times; lookup at segment boundaries and behaviour after a rejected append are not covered for all inputs.',
  [CU + 't_curve.cc', CU + 't_curve.hh', CU + 't_curve_segment.cc'], [('append and validation', CU + 't_curve.cc'), ('segment lookup and time normalisation', CU + 't_curve.cc')])
P('C11', 'Distance-parametrised curves follow their poses by arc length',
  'A curve built from poses has the accumulated arc length of the constant-twist motions between them; a query inside the range lies on the '
  'motion joining the two poses around that arc length, at the proportional position, and at the arc length of a control pose the curve '
  'is at that pose. A pose whose frames differ from those of a framed curve is rejected and leaves the curve unchanged, bulk construction equals '
  'appending in order, and a query outside the range or on fewer than two poses is rejected.',
  ['inputs', 'histories'], 'all sequences of poses including repeated ones, all query arc lengths',
  'Tests use a few curves without zero-length segments and sampled queries.',
  [CU + 'd_curve.cc', CU + 'd_curve.hh'], [('append, accumulated length', CU + 'd_curve.cc'), ('lookup and interpolation', CU + 'd_curve.cc')])
P('C12', 'Rigid-body states compose like moving bodies',
  'Composing two rigid-body states gives the state of the second body seen from the reference of the first, with velocity and acceleration '
  'obtained by differentiating the composed pose; observing one body from another is composition with the inverse. Constructors, getters '
  'and setters expose exactly the given pose and body-frame linear and angular velocity and acceleration, each setter changes only its own '
  'quantity, and frames follow the pose.',
  ['inputs'], 'all states', 'Tests use random states but never every state; index mistakes between linear and angular parts that cancel in tests can survive.',
  ['resim/actor/state/rigid_body_state.cc', 'resim/actor/state/rigid_body_state.hh'], [('composition, accessors', 'resim/actor/state/rigid_body_state.cc')])
P('C13', 'Trajectories pass through their timestamped states',
  'A trajectory passes through each of its control states at its timestamp (pose, and body-frame velocity and acceleration), starts at the first and ends at the '
  'last timestamp, and a query by elapsed time equals the query by the corresponding timestamp. A state whose timestamp is not later than the last or whose reference or body '
  'frame differs is rejected and leaves the trajectory unchanged, and queries outside the range, or for the end or frames of an empty trajectory, are rejected.',
  ['inputs', 'histories'], 'all sequences of control states, all query times',
  'Tests use a few hand-written trajectories.', ['resim/actor/state/trajectory.cc', 'resim/actor/state/trajectory.hh'],
  [('append, queries, start and end', 'resim/actor/state/trajectory.cc')])
P('C14', 'Checked 64-bit arithmetic is exact or throws',
  'Checked sum, difference and absolute value of 64-bit integers return the mathematical result whenever it is representable. They throw '
  'exactly when it is not, and never overflow.',
  ['inputs'], 'all pairs of 64-bit integers', '2^128 input pairs; the boundary cases are many.',
  ['resim/math/safe_integer_utils.cc', 'resim/math/safe_integer_utils.hh'], [('range checks', 'resim/math/safe_integer_utils.cc')])
P('C15', 'Sampling a timestamp interval is exact, even and overflow-free',
  'The number of samples of a timestamp interval is the least that keeps steps within the maximum, and sampling visits exactly that many timestamps in order, '
  'forwards or backwards, starting exactly at the start and ending exactly at the end, each being a nearest nanosecond to its evenly spaced '
  'position. A non-positive maximum step, or an interval or count that does not fit 64 bits, is rejected before anything is visited, an empty '
  'interval is visited once, and nothing overflows for any representable interval.',
  ['inputs'], 'all 64-bit start, end and step values', 'Tests use short intervals; overflow and rounding appear only for particular magnitudes.',
  ['resim/time/sample_interval.cc', 'resim/time/sample_interval.hh', 'resim/math/safe_integer_utils.cc'],
  [('sample count and mixed-number stepping', 'resim/time/sample_interval.cc')])
P('C16', 'Sampling a real interval is even and hits both ends',
  'The number of samples of a real-valued interval is the least that keeps steps within the maximum (a non-positive maximum is rejected), and sampling '
  'visits exactly that many evenly spaced points in order, forwards or backwards, the first exactly the start and the last exactly the end. An '
  'empty interval is visited exactly once.',
  ['inputs'], 'all finite start, end and positive steps', 'Tests sample a few dozen random intervals.',
  ['resim/time/sample_interval.cc', 'resim/time/sample_interval.hh'], [('sample count and loop', 'resim/time/sample_interval.cc')])
P('C17', 'Event schedules are time-ordered and first-in-first-out on ties',
  'The event at the top of a schedule is always the earliest of those scheduled and not yet removed, and among events with equal times the one '
  'scheduled first, with its own time and payload; removing takes exactly that event and the size counts the remaining ones. Scheduling beyond the documented lifetime limit is rejected and changes nothing.',
  ['histories', 'inputs'], 'all histories of scheduling and removing events, all times including ties',
  'Tests schedule five events; heap order depends on the whole history.',
  ['resim/time/event_schedule.hh'], [('ordering and insertion count', 'resim/time/event_schedule.hh')])
P('C18', 'Time representations convert without losing nanoseconds',
  'Converting a duration to seconds and back returns the same duration whenever double precision resolves nanoseconds, and converting real seconds '
  'gives a nearest nanosecond. Splitting any duration into seconds and nanoseconds gives parts of equal sign with less than one second in '
  'the nanoseconds, and joining them restores the duration.',
  ['inputs'], 'all 64-bit durations; all representable second counts', 'Truncation errors affect particular values (for example 15 ns) that tests do not use.',
  ['resim/time/timestamp.hh'], [('conversions', 'resim/time/timestamp.hh')])
P('C19', 'Serialised frames, transforms and vectors are restored exactly',
  'Packing a frame, a framed or unframed rotation or rigid transform, a framed vector, a matrix or an identifier into its message (whatever the message held before) and unpacking it (also into an object already in use) yields '
  'an equal object with the same frames, for every value. Unpacking a malformed message (wrong algebra size, wrong identifier length, missing parts) is rejected.',
  ['inputs'], 'all transforms, vectors, frames and identifiers, and messages with wrong-sized fields',
  'Round-trip tests use a few random values and do not cover every frame combination and malformed size.',
  [T + 'proto/so3_to_proto.cc', T + 'proto/se3_to_proto.cc', T + 'proto/liegroup_to_proto.cc', T + 'proto/frame_3_to_proto.cc', T + 'proto/framed_vector_3_to_proto.cc',
   'resim/utils/proto/uuid_to_proto.cc', 'resim/math/proto/matrix_to_proto.hh'], [('pack/unpack', T + 'proto/')])
P('C20', 'Serialised curves, states and trajectories are restored exactly',
  'Packing a two-jet, a time or distance curve or a trajectory into its message (whatever the message held before) and unpacking it (also into an object already in use) yields an equal object '
  '(same control points in order, same times, same derivatives, same frames, same start time). A message whose control points could not be appended one after the other, or with missing or wrong-sized parts, is rejected when unpacked.',
  ['inputs'], 'all such objects', 'Round-trip tests use a few objects.',
  [CU + 'proto/two_jet_to_proto.cc', CU + 'proto/t_curve_to_proto.cc', CU + 'proto/d_curve_to_proto.cc', 'resim/actor/state/proto/trajectory_to_proto.cc'], [('pack/unpack', CU + 'proto/'), ('pack/unpack', 'resim/actor/state/proto/')])
P('C21', 'View updates are serialised without loss',
  'Packing a batch of viewed primitives (whatever the message held before) keeps every primitive in order with its identifier, type, payload, non-empty user-given name, file name and line number, and unpacking restores '
  'an equal batch. A primitive without payload is rejected when unpacked.',
  ['inputs', 'histories'], 'all batches of primitives', 'Tests pack a few fixed updates.',
  ['resim/visualization/proto/view_primitive_to_proto.cc', 'resim/visualization/proto/view_update_to_proto.cc', 'resim/visualization/view_primitive.hh', 'resim/visualization/view_update.hh'],
  [('pack/unpack', 'resim/visualization/proto/view_primitive_to_proto.cc')])
P('C22', 'Multivariate Gaussians validate their covariance and sample the right law',
  'Constructing a Gaussian is rejected exactly when the covariance size does not match the mean, it is not symmetric or it has a clearly negative '
  'eigenvalue. Otherwise it exposes the given mean and covariance and non-negative eigenvalues, and every sample is the mean plus the '
  'covariance square root applied to standard normal draws, one row per requested sample.',
  ['inputs'], 'all means and covariances', 'Tests estimate moments of one or two Gaussians statistically.',
  ['resim/math/multivariate_gaussian.cc', 'resim/math/multivariate_gaussian.hh'], [('validation and sampling', 'resim/math/multivariate_gaussian.cc')])
P('C23', 'Sample statistics are the textbook estimators',
  'The mean of a set of samples (one per row) is the row average, and the covariance is the unbiased, symmetric estimator about that mean. Asking for the covariance of '
  'fewer than two samples is rejected.',
  ['inputs'], 'all sample matrices', 'Tests use one random matrix.', ['resim/math/sample_statistics.hh'], [('estimators', 'resim/math/sample_statistics.hh')])
P('C24', 'Statuses and status values never confuse success and failure',
  'A status is okay unless it was made from an error, and an error status reports its file, line and message. A value-or-status is okay exactly when it holds a value, '
  'gives that value back unchanged, throws when dereferenced while bad, reports the very error it was built from, and cannot be built from an okay status; '
  'the early-return and assertion helpers act exactly when the status is bad.',
  ['inputs', 'histories'], 'all messages, values and construction, copy and move histories', 'Tests use a few literals.',
  ['resim/utils/status.hh', 'resim/utils/status.cc', 'resim/utils/status_value.hh', 'resim/utils/match.hh'],
  [('status variant', 'resim/utils/status.hh'), ('value or status', 'resim/utils/status_value.hh')])
P('C25', 'Identifiers are values with lossless text form',
  'Two identifiers are equal exactly when all their bytes are, unequal otherwise, and null exactly when all bytes are zero; construction from bytes keeps the bytes and default construction is null. '
  'Formatting and parsing are mutually inverse in canonical lower-case form, equal identifiers hash equally, new identifiers are distinct and not null, and malformed text is rejected.',
  ['inputs'], 'all 2^128 identifiers', 'Tests use a few random identifiers.', ['resim/utils/uuid.cc', 'resim/utils/uuid.hh'],
  [('bytes, comparison, text', 'resim/utils/uuid.cc')])
P('C26', 'Reference wrappers and variant matching hit exactly the referenced object',
  'A nullable reference has a value exactly when built from an object, and then reads and writes reach that very object; dereferencing an '
  'empty one throws. An in-out parameter always reaches the object it was given, and matching a variant calls exactly the branch of the '
  'held alternative with the held value and returns its result.',
  ['inputs', 'histories'], 'all objects, values and alternatives', 'Tests use a few instances.',
  ['resim/utils/nullable_reference.hh', 'resim/utils/inout.hh', 'resim/utils/match.hh'], [('wrappers', 'resim/utils/nullable_reference.hh'), ('visit dispatch', 'resim/utils/match.hh')])
P('C27', 'Everything viewed is delivered exactly once, whatever other threads do',
  'When streaming an object into the view or using the VIEW macro returns, exactly one primitive with that payload, user-given name, file and line has been handed to the client. '
  'Across threads sharing the view nothing is lost or delivered twice and the objects of each thread arrive in the order viewed. Every access to the shared state holds its lock, '
  'which is free again when the call ends; a failed send makes the call throw and later views are still delivered.',
  ['schedules', 'histories'], 'all viewable objects and all orders of the critical sections of the threads', 'Tests run one or two threads without controlling interleavings.',
  ['resim/visualization/view.hh', 'resim/visualization/view.cc'], [('batching under a mutex', 'resim/visualization/view.cc')])
P('C28', 'Authentication reuses the token it holds and never invents one',
  'Asking for a token returns the one held in memory if there is one, otherwise the one in the token file, otherwise it runs the device-code flow: it requests a code '
  'and then a token from the configured server with the configured client, scope and audience, and polls while the server reports an error and the code has not expired. A token obtained is saved and used by '
  'later calls and later clients. A failed status, an unreadable answer, a missing or empty token or expiry is rejected and nothing is saved. Refreshing forgets the token in memory and on disk and removes nothing else.',
  ['fault_sequences', 'histories'], 'all tokens, server answers, clock readings and file states', 'Tests script one server conversation.',
  ['resim/auth/device_code_client.cc', 'resim/auth/device_code_client.hh'], [('token cache', 'resim/auth/device_code_client.cc')])
P('C29', 'The view client posts every update exactly once, under its session',
  'The first update sent creates one session; every update is posted in that session, numbered consecutively in the order sent, with the current token and the serialised update as body. '
  'If the server answers that the token is no longer accepted, the token is refreshed and the update is posted exactly once more. Sending reports success exactly when the server created the update; otherwise it '
  'reports a failure. A session that could not be created is asked for again by the next update. An empty server address is rejected.',
  ['fault_sequences', 'histories'], 'all updates, tokens and sequences of server answers', 'Tests script a few conversations against a mock server.',
  ['resim/visualization/client/view_client.cc', 'resim/visualization/client/view_client.hh'], [('sessions and posting', 'resim/visualization/client/view_client.cc')])

TECH = 'contract-based deductive verification of the real code: symbolic execution of the LLVM IR compiled from /repo on each run, obligations discharged by normal forms and z3'


def main():
    sys.path.insert(0, V)
    from contracts import registry
    checks, na = [], []
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
            for x in q['anchors']['files']:
                assert os.path.exists('/repo/' + x), x
            q['anchors'] = dict(q['anchors'], files=[x for x in q['anchors']['files']])
            f.write(json.dumps(q) + '\n')
            if p['na']:
                na.append(dict(property=p['id'], reason=p['na']))
                continue
            try:
                R = registry.load(p['id'])
            except SystemExit:
                na.append(dict(property=p['id'], reason='no contract within reach built yet'))
                continue
            n = len(R.contracts)
            bo = [c.name for c in R.contracts if c.opts.get('bounded_only')]
            bn = sorted({c.opts['bound'] for c in R.contracts if c.opts.get('bound')})
            note = '%d contracts on the compiled code; every obligation discharged for all inputs' % (n - len(bo))
            if bn:
                nu = sum(1 for c in R.contracts if not c.opts.get('bound'))
                note += ' (bounded in size: %s%s)' % ('; '.join(bn), '; %d of %d contracts unbounded' % (nu, len(R.contracts)) if nu else '')
            if bo:
                note += '; bounded native check only: ' + ', '.join(bo)
            note += '. Floating point treated as real arithmetic except where the contract uses the rounding model; see DESIGN.md for trusted models.'
            checks.append(dict(property=p['id'], quick_cmd='python3-vt -m irv.check %s --tier quick' % p['id'],
                               thorough_cmd='python3-vt -m irv.check %s --tier thorough' % p['id'],
                               technique=p['tech'] or TECH, level='proof', level_note=note))
    json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3, numpy, mpmath, sympy"', checks=checks, not_applicable=na,
                   notes='all commands run with cwd /verif; no hooks are needed in /repo'),
              open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)


main()
