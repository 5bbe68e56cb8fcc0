#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the claims below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ spec (TLC) + "
CLAIMS = {
 "C01": (T + "replay of generated behaviours and trace validation",
         "Every history of up to 4 (thorough 5) operations and long random behaviours of the forest specification are replayed into the real container and every observation is checked by TLC against the specification. Beyond those bounds: sampling."),
 "C09": (T + "replay of generated behaviours and trace validation",
         "All short histories and long random behaviours of the union-find specification are replayed into the real class; TLC checks every recorded answer against the equivalence closure."),
 "C03": (T + "trace validation of request histories run on 1-4 MPI processes",
         "The list specification is model checked for 2-3 processes; TLC's request histories are instantiated on random meshes and partitionings, run through the real Submesh on 1-4 MPI processes and every list is validated by TLC."),
 "C04": (T + "trace validation of time steps run on 1-4 MPI processes, with delayed messages",
         "The halo exchange is model checked for small process counts and all interleavings; the real time stepping code runs an integer right-hand side on random meshes and partitionings with random schemes, and TLC computes the same stages on the undivided mesh and compares every coefficient and ghost copy."),
 "C18": (T + "trace validation of single steps and whole time loops",
         "The time loop is model checked for all small intervals, step sizes and frame counts; recorded runs of the real loop (fixed and adaptive, scripted accept/reject histories) are validated by TLC, including every stage time and stage vector of single steps."),
 "C06": (T + "trace validation of written mesh files",
         "TLC derives owners, shadow parts and part totals from the recorded mesh and compares every token of the file the real writer produced, for random, periodic and merged meshes and arbitrary assignments of elements to parts."),
 "C07": (T + "trace validation of generated meshes for all small descriptions",
         "The specified structured mesh is model checked to tile the box for all small descriptions; for every small 1D and 2D description and a sample in 3D the mesh the real generator builds is compared with it by TLC."),
 "C08": (T + "trace validation of merge histories",
         "Merging is model checked for all small pairings; histories of building, merging (arbitrary pairings and translations), cleaning and copying real meshes are validated step by step by TLC."),
 "C19": (T + "replay of generated write histories; trace validation of the files read back",
         "Write histories generated from the specification are replayed into the real VTK writers on 1-4 processes; TLC compares every piece, cell, point, value and index entry of the files, read back token by token, with the elements and calls; Tecplot zones likewise."),
 "C20": (T + "trace validation of the real geometry of enumerated pairs of neighbours",
         "Two neighbouring elements of every shape in every relative numbering, and random distorted meshes, are given to the real code; TLC validates the recorded images of face points from both sides, element Jacobians and inverse mappings, normals and the facet, edge and node tables of the reference shapes."),
 "C21": (T + "replay of generated assignment histories; trace validation",
         "Histories of basis assignments generated from the specification are replayed into real meshes and single elements; TLC validates the numbers of functions, their distribution over the entities, the identity of every local function and the sizes of the stored coefficients after every step."),
 "C22": (T + "trace validation of basis function values from both sides of enumerated faces",
         "The values of all conforming basis functions at points of faces between neighbours in every relative numbering, and in random periodic meshes, are recorded from both sides; TLC validates that functions of shared entities agree and all others vanish."),
 "C14": (T + "replay of generated selection histories into real contexts; trace validation of every answer",
         "The caching discipline is model checked; selection histories generated from the specification, and long random ones with several contexts side by side, are replayed into real PhysicalElement and PhysicalFace objects on meshes of every shape with several unknowns; TLC tracks the current selection and compares every answer with the values computed directly from that element or face."),
 "C05": (T + "trace validation of real mesh reads on 1-4 MPI processes",
         "All small files are model checked as independent readers; random meshes of every shape, dimension, periodicity and partitioning are read by the real code on 1-4 MPI processes and everything each process reports is validated by TLC against the specification."),
 "C02": (T + "trace validation of numberings built on 1-4 MPI processes, with delayed messages",
         "The numbering protocol is model checked with all message interleavings for small process counts; random meshes, bases, unknown subsets, layouts and partitionings are numbered by the real code on 1-4 processes with randomised message delays and TLC validates that all answers form one bijection with the promised blocks."),
 "C10": (T + "trace validation of estimates on 1-4 MPI processes",
         "TLC recomputes, from the recorded mesh and basis, the distinct columns each row can couple to and compares them with the estimate the real code gives, for random meshes, bases, couplings, layouts and partitionings."),
 "C11": (T + "trace validation of assembled matrices on 1-4 MPI processes",
         "TLC sums the recorded local matrices through the recorded numbering and compares every entry of the matrix the real code assembled, including re-assembly histories and boundary-condition entries."),
 "C12": (T + "trace validation of vector histories on 1-4 MPI processes",
         "TLC keeps the stored coefficients and global vectors as state and validates histories of assembling, gathering and scattering recorded from the real code on 1-4 processes."),
 "C15": (T + "replay of generated histories and trace validation",
         "All short histories of re-initialisation and long random ones are replayed on real elements and faces; TLC compares every offset, size and index with the layout."),
 "C16": (T + "replay of generated histories and trace validation",
         "Random write/read histories over the element and face stores of meshes with unequal bases are replayed on the real classes; TLC carries the stores as state and validates each read."),
 "C17": (T + "replay of enumerated and random command lines",
         "All short argument lists over a token alphabet, and longer random ones, are parsed by the real parser; TLC runs the same list through the specified parser and compares the outcome, values and used flags."),
 "C23": (T + "replay of generated programs on the real classes; trace validation of all registers",
         "The laws of the specified operators are model checked for all small matrices; every operation with every use of two registers, and long random programs, run on the real classes (dynamic and fixed size, real and complex) with integer values; TLC computes every result or checks its defining equation, and that nothing else changed."),
 "C24": (T + "replay of generated section sequences as real files; trace validation of what the readers return",
         "TLC enumerates the sequences of sections and checks that the specified reader does not depend on their order or on node numbers; each sequence is written out as a random file (shapes, numberings, tags, names, periodicity), read by the real reader and compared with the mesh TLC reads from the recorded contents; Centaur and hpGEM files likewise."),
 "C13": (T + "trace validation of everything the real maps declare",
         "Repeated division is model checked in two dimensions for all short histories; nodes, transforms and matrices (at random points), sub-elements and sub-faces of all 36 real maps are recorded, and TLC validates them exactly."),
 "C25": (T + "trace validation of all rules and of integrals on random meshes",
         "Which rules two neighbours and their face use is model checked for all short histories; the moments of every rule that can be requested, the rules in use after every step of random histories of basis assignments, and integrals over all elements and faces of random distorted meshes are recorded from the real code on 1-3 processes, and TLC compares them with exact fractions."),
 "C26": (T + "trace validation of shifted matrices on random distributed periodic meshes",
         "The protocol (own rows overwritten after any history) is model checked on rings of cells for all distributions and sequences of wave vectors; matrices of the real code after random sequences of wave vectors on random periodic meshes and 1-4 processes are compared entry by entry by TLC, exactly, with phases of whole quarter turns."),
 "C27": (T + "trace validation of values, derivatives and spans of all bases",
         "The difference formulas used to judge derivatives and the dimensions of the spaces are model checked; values of all functions along lines through random points of random distorted elements, their gradients and curls, and coefficients expressing every monomial in the functions are recorded from the real code, and TLC checks the identities."),
 "C28": (T + "trace validation of all schemes the library offers",
         "Order conditions are generated from all rooted trees up to five nodes and model checked to recognise known schemes and their order; the coefficients of every scheme that a lookup over the whole range returns are read from the real code as fractions, and TLC decides the conditions exactly, modulo more than twenty primes."),
 "C29": (T + "trace validation of matrix products, mass solves and steady states on several processes",
         "The product assembled per element and per face on processes with copies of elements is model checked against the global matrix; sequences of operations of the linear interface with integer matrices and coefficients that differ per element are recorded from the real code on one to three processes, and TLC recomputes every coefficient exactly or, for solves, multiplies the result with the matrix."),
 "C30": (T + "trace validation of projections and errors on several processes",
         "The reduction of norms over processes and the fixed point arithmetic are model checked; the initial solutions of random polynomials at random points of all elements, and the errors of exact solutions that differ by a constant in part of the domain, are recorded from the real code and TLC compares them with the polynomial and with the exact volume."),
 "C31": (T + "trace validation of geometry, integrals and basis functions on curved meshes",
         "The interpolation of facets in all vertex orders, its derivatives and the balance of volume and flux are model checked; points, Jacobians, normals, integrals, layouts and both traces of all functions on random curved meshes (also periodic) are recorded from the real code and TLC recomputes them exactly from the nodes."),
 "C32": (T + "trace validation of assembled forms on linear fields",
         "Symmetry, consistency and the penalty of the forms are model checked on two elements; the real discretisation assembles on random meshes with random materials, boundary kinds, linear fields, representations and processes, and TLC recomputes every form exactly from the vertices and the fields."),
 "C33": (T + "trace validation of assembled mixed forms on linear fields and potentials",
         "The mixed form is model checked on two elements against its integration by parts; the real discretisation assembles with every kind of stabilisation alone and together on random meshes with random materials, boundary kinds, fields, potentials and processes; TLC recomputes every form exactly from the vertices, and for the lifted stabilisations checks symmetry, sign, kernel, parameter and the product of liftings to three digits."),
 "C34": (T + "trace validation of recorded fluxes",
         "Sums over owned faces are model checked against the facets for all zones and owners of small meshes; the real class gets fluxes that identify the face and the side on random distributed meshes and TLC recomputes facets, names and sums from the mesh alone."),
 "C35": (T + "trace validation of spectra, lines and paths",
         "The empty lattice is model checked (periodicity, ends of lines); spectra, lines and paths of the real classes on random reduced lattices are compared by TLC with a complete enumeration of the lattice points within the bound, in exact integers."),
 "C36": (T + "trace validation of tensors, transmissions and materials",
         "Sums over owned faces are model checked for all zones, layers and owners of small meshes, and the laws of stretched materials for all small stretchings; tensors at random points of random layers, transmissions on random distributed meshes and materials of zones are recorded from the real classes on one to four processes, and TLC recomputes them exactly in complex integers and fractions."),
 "C37": (T + "trace validation of field patterns and problems",
         "Solutions of the homogeneous equation and continuity at interfaces are model checked for all small waves and materials; fields, curls, curls of curls, fluxes, source terms and boundary data of the real classes at points where all phases are quarter turns are recorded, and TLC recomputes them exactly in complex integers."),
 "C38": (T + "trace validation of time derivatives, time steps and limiters",
         "Consistency, antisymmetry and upwinding of the flux and conservation around a ring are model checked for all pairs of small states; moments of the real time derivative for layers with square heights and whole speeds (rational fluxes, normals of 3-4-5 triangles), masses over real time steps and limited layers are recorded on 1-2 processes, and TLC recomputes them."),
}
NA = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        t, n = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": "python3 checks/%s.py" % i.lower(),
                       "thorough_cmd": "VERIF_TIER=thorough python3 checks/%s.py" % i.lower(),
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "model_checking", "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "not claimed: no check built yet")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Checks build harness executables from /repo's working tree into /verif/.build (git-ignored)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
