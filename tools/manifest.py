"""Writes /verif/MANIFEST.json from the table below and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = 'model_checking'
TRK = 'Design exhaustive for small histories on a line; conformance on simulated and random histories and on real fields.'
CLAIM = {
 'C01': ('TLA+ marching-squares specification (Contours.tla) model checked with TLC; contours recorded from the code judged against it (TraceContours.tla)',
         'Exhaustive over small grids (all ties/NaN/saddles), sampled above; positions exact. Trusts integer fields and rectilinear grids.'),
 'C02': ('TLA+ specification of closed contours; recorded detections judged by TLC (TraceDetect.tla)', 'Sampled fields; closed contours recomputed exactly by the specification for each.'),
 'C03': ('TLA+ cascade machine (Cascade.tla) model checked; recorded detections judged by TLC (TraceDetect.tla)', 'Design exhaustive for 3 candidates; conformance on sampled fields, with slack for measurements too near a criterion.'),
 'C04': ('TLA+ threshold operators (Cascade.tla); detections repeated with criteria exactly at recorded values judged by TLC (TraceThresholds.tla, TraceDetect.tla)', 'Exact comparisons at equality and one ulp around it; sampled fields.'),
 'C05': ('TLA+ session machine (Session.tla) model checked; its simulated histories of operations and failures replayed into the code and judged by TLC (TraceSession.tla)', 'Design exhaustive for short histories; conformance on simulated ones, each operation compared with a fresh process.'),
 'C06': ('TLA+ interior/extreme/sign specification on the grid; recorded detections judged by TLC (TraceDetect.tla)', 'Exact on integer fields; sampled.'),
 'C07': ('TLA+ catalogue machine (Catalogue.tla) model checked; its simulated histories replayed into the merge code and judged by TLC (TraceTracks.tla)', TRK),
 'C08': ('TLA+ catalogue machine (Catalogue.tla) model checked; simulated histories with level zero inserted replayed and judged by TLC (TraceTracks.tla)', TRK),
 'C09': ('TLA+ tracking machine (Tracks.tla) model checked; simulated histories replayed into the code and judged by TLC (TraceTracks.tla)', TRK),
 'C10': ('TLA+ matching and tracking machine (Matching.tla, Tracks.tla) model checked; simulated histories replayed and judged by TLC (TraceTracks.tla)', TRK),
 'C11': ('TLA+ tracking machine (Tracks.tla) with missing steps model checked; simulated histories replayed and judged by TLC (TraceTracks.tla)', TRK),
 'C12': ('TLA+ tracking machine (Tracks.tla) model checked; histories and their prefixes replayed and judged by TLC (TraceTracks.tla)', TRK),
 'C13': ('TLA+ tracking machine (Tracks.tla) model checked; windows and empty steps replayed and judged by TLC (TraceTracks.tla)', TRK),
 'C14': ('TLA+ machine of runs that store files, with interruptions (Storage.tla), its simulated histories replayed into the code and judged by TLC (TraceTracks.tla)', 'Histories of runs in two folders, interruptions, windows and formats (csv, json, hd5, unknown).'),
 'C15': ('TLA+ session machine (Session.tla) model checked; inputs and repeated calls of its simulated histories judged by TLC (TraceSession.tla)', 'Conformance on simulated histories; inputs compared byte by byte.'),
 'C16': ('TLA+ specification of layouts (Coords.tla): every layout enumerated by TLC is opened with the code and judged by TLC (TraceCoords.tla)', 'Exhaustive over the listed names, orders and kinds of coordinates on a 3 x 2 grid.'),
 'C17': ('TLA+ storage machine (Layout.tla) model checked; its reachable layouts replayed with real fields and judged by TLC (TraceLayout.tla)', 'All reachable layouts are candidates, a sample per field; shifts sampled.'),
 'C18': ('TLA+ specifications of detection and filters; recorded detections and tracked fields with missing data judged by TLC (TraceDetect.tla, TraceFilters.tla)', 'Sampled fields with missing values.'),
 'C19': ('TLA+ specification of the filters in exact rationals (Filters.tla) model checked; recorded anomalies judged by TLC (TraceFilters.tla)', 'Sampled integer fields, shapes and kernels.'),
 'C20': ('TLA+ specification of couplings and of the dynamic program (Frechet.tla) model checked; recorded distances judged by TLC (TraceFrechet.tla)', 'Design exhaustive for short curves; exact on integer curves up to 300 points; bounds above.'),
 'C21': ('TLA+ specification of the score over exact squared distances (Frechet.tla) model checked; recorded scores judged by TLC (TraceFrechet.tla)', 'Curves with integer lengths; to half a unit of the fourth decimal.'),
 'C22': ('TLA+ specification of records and registries (Registry.tla) model checked; simulated histories replayed and judged by TLC (TraceRegistry.tla)', 'Every subset of properties sampled; histories simulated.'),
 'C23': ('TLA+ record specification; recorded measures judged by TLC against reference measures (TraceDetect.tla)', 'Reference measures are computed in the harness; tolerance is the discretisation error of the path.'),
 'C25': ('TLA+ specification of exact ellipses (Ellipses.tla) model checked; fits of its ellipses, and of moved contours, judged by TLC (TraceEllipses.tla)', 'All ellipses of the model with subsets of their exact vertices; moved contours sampled, compared to a part in ten thousand.'),
 'C26': ('TLA+ record specification (TraceDetect.tla): recorded Gaussians, and those of isolated Gaussian eddies, judged by TLC',
         'The optimiser is not specified, only its result: bounds, consistency of the score, and recovery of sampled isolated Gaussians.'),
 'C28': ('TLA+ specification of pictures (Plots.tla) model checked; pictures recorded from matplotlib judged by TLC (TracePlots.tla)', 'Design exhaustive for four entries; conformance on sampled detections.'),
 'C29': ('TLA+ specification of kernels in exact exponents (Kernels.tla) model checked; kernels made by the code judged by TLC (TraceKernels.tla)', 'Design exhaustive on 3 x 3 grids; conformance on sampled sizes, widths, centres and tracks.'),
 'C30': ('TLA+ specification of scenes of eddies (Scene.tla) over the tracking rules, model checked; simulated scenes turned into records, detected and tracked by the code, judged by TLC (TraceScene.tla)', 'Design exhaustive for two eddies over four steps; conformance on simulated scenes of three eddies over seven steps.'),
 'C24': ('TLA+ placement machine (Placement.tla) model checked; recorded frames and placements judged by TLC (TracePlacement.tla)', 'Sampled grids, seeds and options; sums of Gaussians computed in the harness.'),
}
NA = {
 'C27': 'Memory safety of the compiled tracer is a property of machine state below the specification; it needs sanitizers, not a model.',
}

def main():
    props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in CLAIM and os.path.exists(os.path.join(V, 'harness/props/%s.py' % i.lower())):
            checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='VERIF_TIER=thorough python3 check.py %s' % i,
                               evidence_file='evidence/%s.json' % i, technique=CLAIM[i][0], level=MC, level_note=CLAIM[i][1]))
        else:
            na.append(dict(property=i, reason=NA.get(i, 'no check yet')))
    json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
                   notes='TLA+ checked with TLC; see DESIGN.md. No hooks in /repo.'),
              open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'claimed', [n['property'] for n in na])
main()
