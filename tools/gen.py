"""Writes properties.jsonl and MANIFEST.json from the table below (run from /verif; DESIGN.md is written by hand)."""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
B, L, I, H, D, E, C, P = 'baseConstruction.py', 'latticeFunctions.py', 'interactions.py', 'hamiltonianConstruction.py', 'davidson.py', 'embedding.py', 'initialComputations.py', 'postProcessing.py'


def p(title, statement, over, text, why, *anchors):
    files = []
    for f, _ in anchors:
        if f not in files:
            files.append(f)
    return dict(title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=f + ':' + n) for f, n in anchors], hook_needed=None))


PROPS = {
 'C01': p('The basis lists every state of a sector exactly once, in canonical order',
   'For every number of sites, holes and spins down, the basis contains every way to place them exactly once and nothing else, each state listed as holes, spins down and spins up in increasing order of sites. The states come in lexicographic order of that listing, and the announced dimension is the multinomial count. Counts of spins up, the magnetisation and the doping agree with the numbers of sites, holes and spins down.',
   ['inputs', 'configurations'], 'every sector of every lattice size (holes, spins down), every state of each', 'Tests look at one or two sectors; completeness and absence of duplicates quantify over all the states of all sectors.',
   (B, 'construct_basis'), (B, 'Configuration'), (L, 'compute_dimension')),
 'C02': p('Index and state determine each other',
   'In every sector, looking up the index of a state gives its position in the basis, and rebuilding the state of an index gives that state back, whatever the order in which the sites of one kind are listed in the query where the interface allows it. The indices used are exactly 0 to the dimension minus one. The combinatorial ranks underneath are bijections for every subset of sites.',
   ['inputs', 'configurations'], 'every state and index of every sector, including sectors far too large to list (up to tens of sites)', 'A rank formula can be wrong for a few states of a large sector only; the tests check a handful of states.',
   (B, 'get_index_in_basis'), (B, 'compute_hash_table'), (B, 'get_hash_basis'), (B, 'get_target_hash'), (B, 'get_distance_hash'), (B, 'project_hash'), (B, 'fusion_hash')),
 'C03': p('Bonds of rectangular lattices are those of the square grid',
   'For every way to give a rectangular lattice (blocks horizontally, vertically, and side of the blocks), two sites are bonded exactly when they are neighbours in the grid, sites being numbered row by row. The bond matrix is symmetric, with zeros and ones and an empty diagonal; the lattice is open.',
   ['configurations'], 'every rectangular lattice, every pair of sites', 'Tests compare a few matrices; the construction has separate cases for edges, single rows and single columns.',
   (L, 'build_rectangular_bond_matrix'), (L, 'build_U_matrix'), (L, 'build_T_matrix'), (L, 'build_J_matrix')),
 'C04': p('Bonds of embedded lattices follow their geometry',
   'For every block, the lattice of the block with its ring has exactly the bonds of the plane figure: the block first, then the ring counter-clockwise from below its first site, without corner sites. The ring alone has the bonds of that figure between ring sites. Two copies joined side by side have exactly the bonds of the joined rectangle, the left copy numbered first.',
   ['configurations'], 'every block shape, every pair of sites of the ringed and joined lattices', 'The index arithmetic of the ring and of the joint changes with every shape; tests use one or two.',
   (L, 'build_bond_matrix_neel_embedding'), (L, 'build_bond_matrix_neel_outer_lattice'), (L, 'build_bond_matrix_block_embedding')),
 'C05': p('Neighbour queries and bond lists agree with the lattice and the restriction',
   'Neighbours of a site, sites two bonds away (once each, without the site itself or its neighbours), sites across a tile, and the list of bonds are exactly those of the lattice geometry, each bond listed once. With a restriction only the admitted sites are returned: neighbours and second neighbours inside it, bonds inside a single set of sites or from the starting to the target set.',
   ['inputs', 'configurations'], 'every site of every lattice of the three kinds, every restriction', 'The set of (lattice, site, restriction) triples is far larger than the few asserted.',
   (L, 'get_neighbors'), (L, 'get_second_neighbors'), (L, 'get_diagonal_second_neighbors'), (L, 'build_bond_list')),
 'C06': p('Three sites in a row are told apart from a corner',
   'For every path of three sites on a rectangular lattice, on two joined copies or on a block with its ring, the answer to "are they aligned" is that of the plane figure, in whatever order the three sites are given. Three sites that do not form a path are refused with an error.',
   ['inputs', 'configurations'], 'every ordered triple of sites of every lattice of the three kinds', 'The classification has special cases at the joint, on the ring and for one-site-wide blocks which the tests do not reach.',
   (B, 'is_bond_linear')),
 'C07': p('Hopping moves each hole to each adjacent electron, once',
   'For every state, nearest neighbour hopping gives exactly the states where one hole and one adjacent electron have exchanged places, each once and in canonical order. With a restriction, the hole is among the starting sites and the electron among the target sites.',
   ['inputs', 'configurations'], 'every state of every lattice of the three kinds, every restriction', 'Tests sample a few states; a fault may need two holes side by side, a boundary site or a particular restriction.',
   (I, 'compute_hopping_integral')),
 'C08': p('Next nearest hopping reaches each electron two bonds away, once',
   'For every state, next nearest neighbour hopping gives exactly the exchanges of a hole and an electron two bonds away, split into aligned and cornered ones, each reachable electron once per hole even when two paths lead to it. With a restriction, the hole is among the starting sites and the electron among the target sites.',
   ['inputs', 'configurations'], 'every state of every lattice of the three kinds, every restriction', 'Double paths, occupied intermediate sites and joints between blocks combine; tests sample a few states.',
   (I, 'compute_next_hopping_integral'), (L, 'get_second_neighbors'), (B, 'is_bond_linear')),
 'C09': p('Exchange: each antiparallel bond once, with the constant set by nearby holes',
   'For every state, the static exchange counts minus one half of the exchange constant per bond of antiparallel spins and nothing for parallel ones, and the spin flip yields exactly the states with the two spins of such a bond exchanged. The constant is the parallel one when a hole next to one of the two spins lies on their axis, the perpendicular one when such holes are all off the axis, and the plain one without a hole next to them; both parts use the same classification. With a restriction, bonds go from starting to target sites and holes count when among the starting sites.',
   ['inputs', 'configurations'], 'every state of every lattice of the three kinds, every restriction', 'The constant depends on up to six surrounding sites and the shape; tests sample a few states.',
   (I, 'compute_static_spin_interaction'), (I, 'compute_spin_flip')),
 'C10': p('Singlet displacement: every hole next to an antiparallel pair, both images',
   'For every state and every path hole - electron - electron of opposite spins, singlet displacement yields one pair of images: the hole takes the place of the far electron and the pair moves one site over, unchanged in the first image and with its spins exchanged in the second. Paths along a line and around a corner are kept apart. With a restriction the hole is among the starting sites and both electrons among the target sites.',
   ['inputs', 'configurations'], 'every state of every lattice of the three kinds, every restriction', 'Every path has two orders, two shapes and two images; tests sample a few states.',
   (I, 'compute_singlet_displacement')),
 'C11': p('Hole repulsion counts each pair of holes once',
   'For every state, hole repulsion is the nearest neighbour constant times the number of bonds between two holes plus the diagonal constant times the number of pairs of holes across a tile. With a restriction only holes inside it count.',
   ['inputs', 'configurations'], 'every state of every lattice of the three kinds, every restriction to a set of sites', 'Needs three or more holes in particular shapes to go wrong; tests sample few.',
   (I, 'compute_hole_repulsion'), (L, 'get_diagonal_second_neighbors')),
 'C12': p('The Hamiltonian is the sum of the selected terms, element by element',
   'For every sector, selection of terms and couplings, the matrix built equals the dense matrix obtained by letting each selected term act on each state with its own constant, and depends on no constant of an unselected term. It is real, in compressed row form, and square of the dimension of the sector.',
   ['inputs', 'configurations'], 'every sector of small lattices, every coupling constant separately, every selection of terms', 'A single wrong or missing element changes energies silently; tests compare few elements.',
   (H, 'build_hamiltonian'), (H, 'add_ham_coo'), (I, 'add_hopping_integral'), (I, 'add_next_hopping_integral'), (I, 'add_static_spin_interaction'), (I, 'add_spin_flip'), (I, 'add_singlet_displacement'), (I, 'add_hole_repulsion')),
 'C13': p('The Hamiltonian is Hermitian and has the symmetries of the lattice and of spin',
   'For every lattice, sector, selection of terms and couplings, the matrix is symmetric, commutes with every symmetry of the lattice figure acting on the states, and is carried into the matrix of the sector with up and down exchanged by the reversal of all spins. With both parts of the exchange selected together, or neither, it commutes with the total spin.',
   ['inputs', 'configurations'], 'every lattice of the three kinds, sector, coupling constant and symmetry', 'Relations between all the elements of all sectors; no test compares two sectors or two orientations.',
   (H, 'build_hamiltonian'), (I, 'compute_singlet_displacement'), (I, 'compute_spin_flip')),
 'C14': p('Couplings of a single state are the off-diagonal row of the Hamiltonian',
   'For every state and selection of moving terms (hopping, next hopping, spin flip, singlet displacement), the couplings computed for that state alone are exactly the row of the Hamiltonian, contributions leading to the same state being added. The energy of a state is the sum of its static exchange and hole repulsion, the diagonal of the Hamiltonian.',
   ['inputs', 'configurations'], 'every state of small lattices of the three kinds, every selection and restriction', 'Two implementations of the same operator must agree on every state; tests check one coupling.',
   (I, 'compute_dynamic_interactions'), (I, 'compute_energy')),
 'C15': p('A restricted Hamiltonian acts inside its restriction only',
   'For every restriction of the sites, whether carried by the configuration or given to the builder, as a list or as a pair of starting and target sites, the Hamiltonian equals the one whose terms act only from the starting to the target sites. Restricting to all the sites is the same as no restriction.',
   ['inputs', 'configurations'], 'every subset of sites (and pair of subsets) of small lattices, every sector and term', 'Restrictions are subsets: exponentially many, none tested through the builder.',
   (H, 'build_hamiltonian'), (B, 'Configuration'), (L, 'build_bond_list'), (L, 'get_neighbors')),
 'C16': p('Reversing every spin is an exact involution',
   'For every state, reversing the spins exchanges up and down on every site, keeps the holes, the geometry and the restriction, gives a state of the sector with the two counts exchanged, and done twice gives the state back. Reversing a basis or a vector does the same for every component, and leaves the vector given unchanged.',
   ['inputs', 'configurations'], 'every state, restriction and unit vector of small lattices', 'Errors show only for unbalanced sectors, restrictions or particular orders of sites.',
   (B, 'reverse_spins'), (B, 'reverse_spins_basis'), (B, 'reverse_spins_vect')),
 'C17': p('Quarter turns rotate the square block and compose',
   'For every state of a square block, a number of quarter turns moves the content of every site to the rotated site, clockwise, in canonical order; turns compose, and four of them (or minus any number undone) give the state back. ',
   ['inputs', 'configurations'], 'every state of square blocks, quarter turns of both signs beyond a full circle', 'Tests rotate one state; negative and large numbers of turns and other sizes are not reached.',
   (B, 'rotate_determinant')),
 'C18': p('Joining the states of two lattices keeps both',
   'For every pair of states of two lattices, whatever their restrictions, the joined state has the content of the first lattice on its sites and that of the second on the following ones, in canonical order, no site lost or repeated. The queries for the sites of one kind and for the content of a site give the content of every site.',
   ['inputs', 'configurations'], 'every pair of states of small lattices under every pair of restrictions', 'A product of two state spaces and their restrictions.',
   (B, 'extend_determinant'), (B, 'get_indexes_of'), (B, 'get_spin_site'), (B, 'reorder_basis_element')),
 'C19': p('Probabilities of presence are those of the vector',
   'For every vector (normalised or not), the probability of a hole, a spin up or a spin down on a site is the normalised weight of the states with that content; the three add to one on every site and to the numbers of particles over the lattice. Reversing the spins exchanges up and down; the rectangular map holds the same numbers, the first row at the bottom of the lattice.',
   ['inputs', 'configurations'], 'every sector, every unit vector and pair of states with several weightings, three particles, both orientations', 'A quadratic form is determined by its values on unit vectors and pairs: all of these are evaluated, a few tested.',
   (B, 'get_probability_spin_lattice'), (B, 'get_spins_probabilitites_lattice'), (B, 'get_probability_spin_rectangular_lattice')),
 'C20': p('Dominant states are the largest amplitudes with their states',
   'For every vector and requested number, the dominant states returned are those of largest amplitude in decreasing order, each once with its own signed coefficient, as many as requested or as there are, ties included. Both ways to ask for them follow this.',
   ['inputs'], 'every vector over small sets of amplitudes with ties and signs, every requested number', 'Ties and signs are the failing cases, absent from the tests.',
   (B, 'get_dominant_determinants'), (C, 'get_most_dominant_determinants')),
 'C21': p('Spin operators act as angular momentum',
   'For every state and pair of different sites, S+S- exchanges an up and a down spin and vanishes otherwise, and SzSz is a quarter of the product of the two spins, holes counting zero. On every vector, S squared is the square of the total spin, the total magnetisation is half the difference of the spins, and expectation values follow.',
   ['inputs', 'configurations'], 'every state and ordered pair of sites; every unit vector of every small sector', 'Linear operators are decided on every basis vector, tests on one.',
   (I, 'compute_S_plus_S_minus_det'), (I, 'compute_S_plus_S_minus'), (I, 'compute_spins_z_two_bodies_det'), (I, 'compute_spins_z_two_bodies'), (I, 'compute_S2'), (I, 'compute_S2_exp_val'), (I, 'compute_spin_z')),
 'C22': p('Spin numbers of spin eigenstates, and their names',
   'For every eigenstate of the total spin, of any norm, the spin number s satisfies s(s+1) = the eigenvalue and is the exact half integer within rounding. The multiplicity is named singlet to quintet for spins 0 to 2. Several eigenvectors asked together give each its own.',
   ['inputs', 'configurations'], 'every eigenvector of S squared of every small sector, in several bases and scalings', 'Tests compute one spin number.',
   (I, 'compute_spin_number'), (I, 'compute_spin_multiplicity'), (D, 'compute_spin_and_multiplicity')),
 'C23': p('Whatever the settings, the diagonaliser returns orthonormal Ritz pairs',
   'For every symmetric matrix, guess, number of states, number of steps, tolerance and limit of the search space, the vectors returned are orthonormal, the energies are their own, in increasing order, and never above those of the guess (bounded by the true ones from below); as many are returned as asked, within the dimension and the limit. When the search space is not limited and steps are enough, the residues are below the tolerance. The guess and the matrix are left unchanged.',
   ['inputs', 'histories'], 'every small symmetric matrix over a grid, Hamiltonians of small sectors, lists of guesses, budgets of 1 to 300 steps, limits', 'The iterates depend on the whole history of the search space; tests run one matrix to convergence.',
   (D, 'modified_davidson_algorithm'), (D, 'perform_modified_gram_schmidt'), (D, 'get_lowests_eig')),
 'C24': p('From its own guess the diagonaliser finds the lowest energies',
   'For every sector of small lattices and selection of terms whose Hamiltonian couples every state, starting from its own random guess, the diagonaliser returns the lowest energies, repeated ones included, and eigenvectors of them, whatever the seed and number of states asked.',
   ['inputs', 'configurations'], 'every small sector of the three kinds of lattices, selections, two coupling vectors, seeds, numbers of states', 'Missing or repeated levels appear for degenerate or symmetric spectra only; tests use one matrix.',
   (D, 'modified_davidson_algorithm'), (D, 'davidson_algorithm')),
 'C25': p('Lowest pairs, orthonormal bases and projections are exact',
   'Selecting the lowest pairs gives the smallest values in increasing order each with its own vector; orthonormalising gives orthonormal columns spanning the same nested spaces; projecting a matrix off a set of orthonormal vectors makes these vanish and leaves the complement. Arguments are left unchanged.',
   ['inputs'], 'every small list of values with ties, every small matrix of independent columns over a grid', 'Ties, signs and shapes are enumerated; tests use one example.',
   (D, 'get_lowests_eig'), (D, 'gramSchmidt'), (D, 'perform_modified_gram_schmidt'), (D, 'perform_matrix_orthogonal_projection')),
 'C26': p('A saved result loads back identical',
   'For every result, saving it then loading the file gives back the same configuration (geometry, indexing, restriction, counts), couplings, settings, selection, basis, Hamiltonian, energies, spins, vectors and times, every number bit for bit; only the initial guess is dropped. Saving does not change the result in memory, and saving what was loaded writes the same file again.',
   ['inputs', 'histories'], 'every sector, restriction and selection of small lattices, awkward floating point numbers, save-load-save-load histories', 'No test saves or loads anything.',
   (C, 'save_data'), (C, 'load_data'), (C, 'recover_results'), (B, '__to_json__')),
 'C27': p('Each result has its own file, and readers open the right one',
   'After any history of saves of plain, ring-embedded and block-embedded results, the store holds exactly one file per distinct result, with the last content saved for it. Results of different sectors or selections of terms never share a file, and embeddings and plots read the file that saving a result of their own sector and selection has written. Computing every configuration of a lattice saves each one with its own basis, Hamiltonian, restriction and indexing.',
   ['histories', 'configurations'], 'every history of a few saves, every sector up to twenty sites, all 64 selections', 'No test touches the store; overwriting needs two results at once.',
   (C, 'save_data'), (E, 'save_data_peripheral_embedding'), (E, 'save_data_embedding_blocks'), (C, 'perform_configurations_computations'), (P, 'generate_plots_configuration')),
 'C28': p('An interrupted save never loads as a result',
   'Whatever the byte at which a save is cut (process killed or disk full), loading its file afterwards gives a whole result that was saved before or reports an error, never a mixed or partial one; other files are untouched, a full disk is reported, and saving again repairs the file. Any strict prefix of a results file is refused.',
   ['crash_points', 'fault_sequences'], 'every byte of every kind of save, over an empty or a filled store; every strict prefix of saved files', 'Tests inject no fault.',
   (C, 'save_data'), (C, 'load_data'), (E, 'save_data_peripheral_embedding'), (E, 'save_data_embedding_blocks')),
 'C29': p('Ring embedding follows its self-consistent field, iterate by iterate',
   'The energies and states returned by the embedding in a ring after k iterations are those of the block Hamiltonian plus, for every state, the exchange (minus J/2 per antiparallel weight) and the hole repulsion (across bonds and tiles) with the ring: first alternating spins around the ring, then on each ring site the probabilities of the block site next to it with spins exchanged. It stops at the first iterate that changes less than the tolerance or when iterations run out, returns the basis and bare Hamiltonian of the block, and saves that same result without touching the block\'s own.',
   ['inputs', 'histories', 'configurations'], 'every small block and sector, selections, couplings, numbers of iterations, tolerances', 'The embedding is untested; its field depends on frontier geometry and on every previous iterate.',
   (E, 'embedding_neel'), (E, 'save_data_peripheral_embedding')),
 'C30': p('Block embedding follows its self-consistent field, iterate by iterate',
   'The Hamiltonian, energy and ground state returned by the static embedding next to a copy of the block after k iterations are those of the block plus, for every state, the exchange and hole repulsion (across bonds and tiles) with the copy to its right, which carries the probabilities of the previous ground state, spins reversed on request; among four copies the field is summed over quarter turns. It starts from the plain or the ring-embedded result as asked, stops at the first iterate that changes less than the tolerance or when iterations run out, and saves that same result without touching the others.',
   ['inputs', 'histories', 'configurations'], 'every small block and sector, one or four copies, reversed or not, selections, couplings, numbers of iterations, tolerances', 'The embedding is untested; its field depends on frontier geometry and on every previous iterate.',
   (E, 'embedding_blocks'), (E, 'save_data_embedding_blocks'), (B, 'rotate_determinant')),
 'C31': p('Dynamic embedding adds the second order dressing through the copy',
   'With dynamic embedding the Hamiltonian of the block gains, for every state with a hole moved into the copy and every pair of states it leads back to, the product of the two moving amplitudes and of the weights in the ground state of the copy over the energy difference, when not below the threshold. The result is symmetric, follows the quarter turns when there are four copies, works for copies with reversed spins, equals the static embedding for an infinite threshold, and is saved as such.',
   ['inputs', 'histories', 'configurations'], 'every small block and sector, one or four copies, reversed or not, thresholds, iterations', 'Untested; enumerates intermediate states of two coupled blocks.',
   (E, 'embedding_blocks'), (I, 'compute_dynamic_interactions'), (B, 'extend_determinant')),
 'C32': p('Queries leave their arguments unchanged and always answer the same',
   'Asking for geometry, images of a state, couplings, probabilities, spins, reversals, bases, a Hamiltonian, eigenstates or a whole computation leaves the configuration, state, vector, matrix and settings given as they were. The answer does not depend on what was asked before, nor on what became of earlier answers.',
   ['histories', 'inputs'], 'every query on every state of small lattices; every ordered pair of queries sharing their arguments', 'Needs histories of calls sharing their arguments; tests make fresh ones.',
   (B, 'Configuration'), (I, 'compute_dynamic_interactions'), (L, 'get_neighbors'), (C, 'perform_initial_computations')),
 'C33': p('Printed states show every site at its place',
   'For every state, the printed lattice shows each site at its place (first row at the bottom, up and down arrows, 0 for holes), alone, framed by its ring, or next to another block row by row. Printed bases and dominant states list every state in order.',
   ['inputs', 'configurations'], 'every state of small lattices of every shape, pairs of blocks', 'No test reads the printed lattices; edge rows and columns are separate code.',
   (B, 'get_displayable_rectangular_lattice'), (B, 'get_displayable_outer_embedding_lattice'), (B, 'get_displayable_neighbor'), (B, 'get_displayable_determinant'), (B, 'get_displayable_basis'), (B, 'get_displayable_dominant_determinants')),
 'C34': p('A whole computation delivers what was requested',
   'For every sector, selection, restriction and settings, the computation returns the basis of the sector, the Hamiltonian of the request, the requested number of orthonormal eigenstates in increasing order of energy, and the spin of each when asked (none otherwise). The settings (number of states, steps, tolerance, limit of the search space, guess) all reach the diagonaliser, and the request is left unchanged.',
   ['inputs', 'configurations'], 'every small sector of the three kinds of lattices, selections, restrictions, settings', 'No test runs the whole computation.',
   (C, 'perform_initial_computations'), (H, 'build_hamiltonian'), (D, 'modified_davidson_algorithm'), (I, 'compute_spin_number')),
 'C35': p('The picture of a spectrum shows every energy as often as it occurs',
   'For every result, the saved picture of the spectrum draws one horizontal level per computed state, at its energy; levels of equal energy are drawn side by side, never over each other, so that degeneracy is visible. The result itself is left unchanged and the picture bears the numbers of sites, spins up and spins down in its name.',
   ['inputs'], 'every list of energies with every pattern of repetition, every small computed spectrum', 'No test draws anything; levels are lost or doubled only for particular patterns of repetition.',
   (P, 'save_spectrum')),
 'C36': p('Pictures of densities show at each site the probability of that site',
   'For every result on a rectangular lattice, the picture of the holes shows for each of the lowest states requested (as many as fit in a square grid of panels) the probability of a hole, and the picture of the spins of a state shows the probabilities of spins up, of spins down and their difference. The value drawn at the place of a site is that of this site, the first row at the bottom, each site marked. A state that was not computed gives no picture; the name of the picture tells the configuration and, for the holes, the selected terms.',
   ['inputs', 'configurations'], 'every sector and vector of small rectangular lattices, every number of requested panels, every selection of terms', 'No test draws anything; a mirrored or transposed map passes on symmetric states.',
   (P, 'save_hole_probability_lattice'), (P, 'save_electron_probability_lattice'), (B, 'get_probability_spin_rectangular_lattice')),
 'C37': p('Pictures of amplitudes count and rank the components of the states',
   'For each of the lowest states requested, the picture of amplitudes gives at every abscissa the number of components at least that large in absolute value. The comparison with an embedded result shows, for the plain and for the embedded ground state, the requested number of largest weights in decreasing order, whatever ties there are.',
   ['inputs', 'configurations'], 'every small sector, number of requested panels and bars, tied and distinct amplitudes', 'No test draws anything; ties and more panels than states are special inputs.',
   (P, 'plot_determinants_amplitude_repartition'), (P, 'plot_embedding_effect_on_determinants')),
 'C38': p('Requested pictures of every configuration come from its own result',
   'Asking for the pictures of a lattice with a number of holes produces exactly the kinds of pictures requested, for every split of the electrons into spins up and down (holes only when there are some, spins only when both occur), each drawn from the stored result of that configuration and selection of terms. Asking for the effect of an embedding compares the stored plain result with the stored result of the requested embedding (ring start, dynamic, single neighbour).',
   ['configurations', 'inputs'], 'every configuration of small lattices, every subset of kinds of pictures, every choice of embedding', 'No test draws anything; pictures of one configuration drawn from another look plausible.',
   (P, 'generate_plots'), (P, 'generate_plots_configuration')),
 'C39': p('The spectrum against t/J follows the model at every ratio',
   'For every configuration and couplings, the two pictures of the spectrum against t/J hold, at each drawn ratio, exactly the energies of the plain model (hopping and exchange) and of the extended model, with the exchange and singlet displacement couplings scaled with J and hopping and repulsion kept. Reordering levels into smooth curves never loses, doubles or moves an energy, and the request is left unchanged.',
   ['inputs', 'configurations'], 'every small configuration, every drawn ratio, both models', 'No test draws anything; the reordering swaps tails of curves at crossings that depend on the spectrum.',
   (P, 'plot_spectrum_dependance')),
 'C40': p('The phase diagram follows the model at every point of its grid',
   'For every configuration, number of holes and selection of terms, one picture per sector of spins holds, at every point of its grid, the energy of the requested state and its spin, for the repulsion and the hopping that the axes give in units of J, the next neighbour hoppings and the diagonal repulsion following them; a state that does not exist is drawn as zero. The request is left unchanged.',
   ['inputs', 'configurations'], 'every small configuration, number of holes, state, grids of several shapes, every sector of spins', 'No test draws anything; each point is a computation of its own on a configuration and couplings that change in between.',
   (P, 'save_phase_space')),
 'C41': p('Runs at the same time over one folder do not disturb each other',
   'Whatever the order in which the file accesses of several runs over one folder interleave, each save of a result of its own succeeds and leaves that result whole under its own name, the folder being created by whichever run comes first; loading during a save gives a whole result saved under that name or an error; two saves of one result end with it (or, with different contents, with one of them or an error on loading). Whole computations, embeddings and pictures made by runs at the same time are those each run makes alone.',
   ['schedules', 'histories'], 'every order of the accesses to files of two or three runs', 'A fault shows only when the accesses of two processes interleave in a particular order; tests run one process.',
   (C, 'save_data'), (C, 'load_data'), (E, 'save_data_peripheral_embedding'), (E, 'save_data_embedding_blocks'), (C, 'perform_configurations_computations'), (P, 'save_hole_probability_lattice'), (P, 'save_electron_probability_lattice'), (P, 'plot_embedding_effect_on_determinants')),
 'C42': p('A run killed at any point can be made again, in any folder it leaves',
   'Whatever the moment at which a run (computing every configuration of a lattice, then embedding one; saving; drawing) is killed, any number of times, by itself or alternately with other runs over the same folder, a run made again from what it left ends without error and delivers exactly what an uninterrupted run delivers. Meanwhile no file loads as a result that no run has made, and what others, or runs that ended, have stored stays whole.',
   ['crash_points', 'histories', 'fault_sequences'], 'every folder that deaths after any file access can leave, to a fixpoint; every run made again from each', 'Tests kill nothing; a leftover lock, marker or temporary file is harmful only to the run made next.',
   (C, 'perform_configurations_computations'), (C, 'save_data'), (C, 'load_data'), (E, 'save_data_peripheral_embedding'), (E, 'save_data_embedding_blocks'), (P, 'generate_plots')),
 'C43': p('An access to files that is refused is reported or overcome, never hidden',
   'Whichever accesses to files the system refuses (forbidden folder, full or broken disk, too many open files) during a save, a load, a picture or a whole computation, the run either fails with an error or leaves and gives exactly what it would have without them; results stored by others stay whole. Made again in the same process, without refusals, it delivers everything.',
   ['crash_points', 'fault_sequences', 'inputs'], 'every access of every kind of run refused with every error it admits, one or two in a run', 'Tests inject no fault; some of these errors are already handled in the code as signs of a missing folder.',
   (C, 'save_data'), (C, 'load_data'), (E, 'save_data_peripheral_embedding'), (E, 'save_data_embedding_blocks'), (P, 'save_hole_probability_lattice'), (P, 'save_electron_probability_lattice'), (P, 'plot_embedding_effect_on_determinants'))
}

TECH = {
 'C43': 'exhaustive enumeration of sets of refused system calls on real processes under ptrace',
 'C42': 'explicit-state exploration of the folder states that deaths at every file access leave, to a fixpoint, on real processes under ptrace',
 'C23': 'explicit-state exploration of the diagonaliser iterates on the real code, against Rayleigh-Ritz invariants',
 'C28': 'exhaustive crash-point and prefix enumeration on the real code',
 'C26': 'exhaustive enumeration of results and save/load histories on the real code',
 'C27': 'exhaustive enumeration of save histories against a model of the store, on the real code',
 'C29': 'explicit-state model of the self-consistent field, every iterate replayed on the real code',
 'C30': 'explicit-state model of the self-consistent field, every iterate replayed on the real code',
 'C31': 'explicit-state model of the dressed self-consistent field, every iterate replayed on the real code',
 'C41': 'stateless model checking of real processes: every interleaving of their system calls on the files, under a ptrace scheduler with visited-state pruning',
 'C32': 'exhaustive enumeration of query histories on the real code',
}
DEFAULT = 'exhaustive explicit-state enumeration of a reference lattice model, every state and transition replayed on the real code'


def main():
    props = [dict(id=k, **{**v, 'statement': v['statement'].strip()}) for k, v in sorted(PROPS.items())]
    for x in props:
        assert len(x['title']) <= 80, x['title']
        for m in x['anchors']['mechanism']:
            f, n = m['where'].split(':')
            src = open('/repo/' + f).read()
            assert 'def {}('.format(n) in src or 'class {} '.format(n) in src or 'class {}:'.format(n) in src, m
    with open('properties.jsonl', 'w') as f:
        for x in props:
            f.write(json.dumps(x) + '\n')
    checks = []
    for x in props:
        m = importlib.import_module('mc.checks.' + x['id'].lower())
        checks.append({'property': x['id'], 'quick_cmd': './check ' + x['id'], 'thorough_cmd': './check {} --thorough'.format(x['id']),
                       'technique': TECH.get(x['id'], DEFAULT), 'level': m.LEVEL,
                       'level_note': 'Exhaustive within: {}.{}'.format(m.BOUNDS['quick'], ' Assumes: ' + ' '.join(m.ASSUMPTIONS) if getattr(m, 'ASSUMPTIONS', None) else '')})
    man = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': NOT}
    with open('MANIFEST.json', 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


NOT = []
if __name__ == '__main__':
    main()
