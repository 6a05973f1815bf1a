#!/usr/bin/env python3
# Writes MANIFEST.json from the tables below.
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED={
 'C21':('abstract interpretation of the accessors over SSA, path summaries compared with the specified value',
        'Every path of Dim, VoxelsPerMM, MBB, New, Get, Add and AddColor is summarised for all inputs and compared with its specification; real arithmetic stands for float64.'),
 'C11':('path-sensitive typestate simulation over SSA (failure of each I/O call followed to the result or exit status of every root)',
        'Calls of the standard and third-party libraries are specified by their signatures and a short exemption list; goroutines are followed at their start; loops by recency abstraction.'),
 'C12':('path-sensitive typestate simulation over SSA (open and close of handles through callees, defers and goroutines)',
        'Handles are recognised by the types the libraries return; a handle counts as released when its Close is called on the path.'),
  'C24':('path-sensitive typestate simulation over SSA (state of the output file and of the inputs on every path of the merge commands)',
        'The output is identified by the flag that names it; existence tests are calls of os.Stat and its like, the overwrite switch is the flag of that name.'),
  'C14':('path-sensitive typestate simulation over SSA (locks, wait groups, channels and goroutines of every root)',
        'Goroutines are followed at their start; counts in loops are matched symbolically with the loop bound; a channel or function value handed to a library is trusted to be served.'),
  'C13':('points-to, lockset and happens-before analysis over SSA (pairs of conflicting accesses of goroutines and RPC handlers)',
        'Objects are allocation sites; library code outside fauxgl is modelled by whether its type is safe for concurrent use; a wait group, channel or lock orders by its documented meaning.'),
  'C27':('path-sensitive typestate simulation over SSA (lockset of the idle pool, state of each agent address, slice number of each request)',
        'The gRPC client is trusted to send the request it is given; a registration may add any address.'),
  'C22':('information-flow analysis over SSA and points-to sets (map order, scheduling, time, randomness and addresses followed to the bytes written)',
        'Assumes C13 (no data races); fauxgl is trusted to be deterministic; sorting is recognised by the library call and its comparison.'),
  'C20':('inclusion-based points-to and write-effect analysis over SSA (objects each operation may change against objects reachable from its inputs and from the templates)',
        'Field-sensitive, flow-insensitive except for local variables; library calls outside fauxgl are assumed to write only what they are given by pointer.'),
  'C23':('abstract interpretation of the dicing command over SSA (path summaries of one iteration, loop variables as affine functions of the iteration numbers)',
        'Loop bounds, steps and the command line are compared as symbolic terms for every size, header and set of flags; spaces in file names are not followed through the printed line.'),
  'C18':('abstract interpretation of voxcut over SSA (set membership of the result of map-building loops, decided for every key; path summaries of the command)',
        'Membership is compared as propositions over the base and cut sets for a symbolic key; the shift is compared as a rounding of a real-valued expression, so floating-point rounding before math.Round is not modelled.'),
  'C26':('abstract interpretation of the .vox writer over SSA (symbolic byte stream cut into chunks; declared sizes compared with the bytes that follow, maxima recognised over all iterations)',
        'Counts are symbolic in the number of voxels; sizes wrapping beyond 2^31 bytes are not excluded.'),
  'C25':('abstract interpretation over SSA of every function that converts triangles (path summaries of one iteration; the nine coordinates compared with those of the source element, loops proved to run through all of it)',
        'Bytes are compared by position and width; conversions between floating-point widths are taken as the identity. Parsing of numbers is left to the library.'),
  'C06':('abstract interpretation of the binvox writer over SSA (symbolic byte stream cut into header and runs; induction over the loop nest that the runs emitted plus the run due list the cells visited)',
        'The cells are compared as a word with one letter for each cell, for every model, window and size; runs passed through a channel or a list are followed element by element; float text formatting is trusted.'),
  'C08':('abstract interpretation of the vshell writer over SSA (symbolic byte stream cut into header and records, field widths from proved ranges; induction over the loop nest that the runs emitted plus the run due list the cells visited)',
        'As C06; a model is assumed to hold each position once (C19), its neighbour bits are those of the element found in the lookup table.'),
'C07': ('path-summary abstract interpretation with inductive loop invariants over the SSA form: the index of the cell stored is shown to be a potential that starts at 0 and grows by one per cell and by the count per record',
        'all windows (each count zero or positive); header numbers traced to their groups of the patterns, patterns checked as syntax trees; every error outcome shown to be due. math/big free integers (no overflow of index products).'),
'C09': ('path-summary abstract interpretation with inductive loop invariants over the SSA form, as for C07, with the width of the count decided by the value and the neighbour bits traced to the value read',
        'all windows; every error outcome shown to be due.'),
'C10': ('path-summary abstract interpretation: every outcome of both readers returns, every index, slice, division and conversion obligation on their paths is discharged; on success, the facts of the path imply each well-formedness condition',
        'data that ends before all cells of the model are listed is accepted, as the existing tests require.'),
  'C04':('abstract interpretation of VoxelizeZ and Voxelize over SSA (facts on the keys of the maps of a slice; ends of the segments as rational functions of the corners; feasibility of the ways that skip a triangle at concrete corner heights; summary of the loop over slices with the slice function taken as one that reports a cell)',
     'Real arithmetic. Edges whose ends differ by less than the epsilon in height are taken as lying in the slice; a triangle that only touches the slice in one corner or along an edge may or may not give a segment. That different slices are computed by the same function on the same arguments is decided by comparing the calls.'),
  'C05':('abstract interpretation of the line drawing over SSA (closed form of the cell of each iteration, invariant on the carried distance from the ideal line, octant facts at the loop, extents of the rows as min/max of the cells entered)',
     'Integer arithmetic without overflow; the cells of the ends are floors of real numbers.'),
 'C01':('abstract interpretation of MarchingCubes over SSA for each of the 256 kinds of cell (triangles of the summary of one iteration over the cells; edge matching between the kinds of cell)',
        'Real arithmetic. That edges match between neighbouring cells is decided once for each pattern of the four voxels on a side, which covers every set of voxels; the normals the library computes from the corners are not looked at.'),
 'C02':('abstract interpretation of ManifoldMesh over SSA for each of the 256 kinds of cell (edges split at the half-voxel lattice; edge matching between the kinds of cell)',
        'As C01. The kinds of cell for which the tree leaves holes are listed one by one in KNOWN_FINDINGS.txt; all others are decided.'),
 'C03':('abstract interpretation of the three mesh converters over SSA (position of each vertex relative to its cell as a constant; product of the matrices applied to the cube mesh)',
        'Real arithmetic. That the library\'s NewVoxelMesh puts voxel i from i-1/2 to i+1/2 is taken from its documentation and source, not decided.'),
'C16':('symbolic execution of the three dicing paths with loop coverage and linear/integer-division reasoning over SSA','Deterministic and exhaustive over the paths with exactly three files; file names, boxes, dimension and numbers of divisions are symbolic. Assumes real arithmetic for the float computations.'),
'C17':('symbolic execution of agent and master over SSA: fold summary of the pixel map decided for every case, symbolic comparison of entry names with the manifest pattern, loop coverage','Deterministic; agent with exactly three files, master with any request. Models are loaded by an assumed summary (dimensions symbolic); zip, PNG and image libraries are specified, not analysed.'),
'C15':('path-summary abstract interpretation over SSA of every method registered as an RPC handler, for an arbitrary request and server state (every index, slice, division, nil, conversion and close obligation discharged; no exit reachable; non-nil elements and list lengths by induction over the loops that build them)',
        'The states a handler may meet are bounded by what the constructors set and by the handlers themselves. Library calls are taken not to panic on the values they are given once their documented preconditions are shown; memory exhaustion and endless loops are not covered.'),
'C19':('abstract interpretation of VShell.Add and New over SSA, once for each combination of directions of the shift (guards of the joined alternatives decide each of the 26 bits for a symbolic voxel; loop coverage; shift, placement and dimensions as symbolic terms)',
        'Every set of voxels and every translation. Real arithmetic for translations and scale; one addition to an arbitrary shell whose positions are distinct stands for any sequence of additions.'),
}
NA={
 'C28':'Whether the filled voxels are those geometrically enclosed by the outline is a numerical property of computed intersections; no sound static argument in reach bounds it.',
 'C29':'Quantifies over crash points of the file system; the code writes files in place and no structural rule would decide the outcome of a kill at every point.',
 'C30':'Depends on the behaviour of the third-party map-reduce framework at run time, which is outside /repo.',
}
props=[json.loads(l) for l in open(here+'/properties.jsonl')]
checks=[];na=[]
for p in props:
    i=p['id']
    if i in CLAIMED:
        t,n=CLAIMED[i]
        checks.append({'property':i,'quick_cmd':'bash run.sh '+i,'thorough_cmd':'bash run.sh '+i,'technique':t,'level':'other','level_note':n})
    else:
        na.append({'property':i,'reason':NA.get(i,'No check built yet.')})
json.dump({'version':1,'setup_cmd':'bash run.sh build','checks':checks,'not_applicable':na},open(here+'/MANIFEST.json','w'),indent=1)
