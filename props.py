"""Writes properties.jsonl and MANIFEST.json (run after editing)."""
import json
import os
HERE = os.path.dirname(os.path.abspath(__file__))
T = 'The stable tests only parse one or two fixed sections; no test that passes here runs a simulation.'


def P(id, title, statement, over, text, why, files, mech, technique, note):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note)


O, G, I = 'hyvr/postprocess/output.py', 'hyvr/geo/', 'hyvr/input/'
L = [
 P('C01', 'Option values are parsed exactly as written',
   'For every parameter section, every option gets exactly the value written in the file: numbers, booleans and text of the declared type, and lists of any nesting with all their items in order, on one line or several. A single value (or a shorter list) given for a list option stands for the list of the declared shape filled with it, options that are missing get their default, and alternative names mean the same option.',
   ['inputs'], 'all option tables, shapes (fixed, free, equal to another option, ragged, up to four levels) and values',
   'Tests parse one fixed section with a handful of options.', [I + 'option_parsing.py'],
   [('Section.parse / Option.parse', I + 'option_parsing.py'), ('list splitting and shape expansion', I + 'option_parsing.py')],
   'runtime differential monitor: real parser against an independent reference on random option tables',
   'Every random section is parsed by the real code and compared value by value with the ground truth it was rendered from.'),
 P('C02', 'Option values that do not fit are rejected',
   'A value that does not fit the declaration of its option (wrong number of items or depth of nesting, item or scalar of the wrong type, value outside of the allowed set, malformed list, missing required option) is never accepted or guessed: parsing fails with an exception. A rejected section leaves the parser usable for valid ones.',
   ['inputs'], 'all single defects of all valid sections', 'Tests try four fixed defects of one section.', [I + 'option_parsing.py'],
   [('shape and type checks', I + 'option_parsing.py'), ('validation functions', I + 'options.py')],
   'runtime monitor: one injected defect per random valid section, rejection observed',
   'Each broken text must raise; the unbroken text must still parse to the right value afterwards.'),
 P('C03', 'The model set up is the one the parameter file describes',
   'For every complete parameter file, all settings the run uses (run, grid, strata, elements, hydraulics, flow) are those written in the file, documented defaults (for example missing cell sizes in y and z equal to that in x, missing backgrounds taken from the stratum) apply exactly where an option is missing, and writing a default out changes nothing. Inconsistent files (unknown facies or element names, number of contacts not matching the strata, missing sections, layers without layer distance, lag without facies) are rejected before any directory is created.',
   ['inputs', 'configurations'], 'all parameter files in the documented format', T, [I + 'parameters.py', I + 'options.py', G + 'model.py'],
   [('parse_inifile', I + 'parameters.py'), ('option tables', I + 'options.py')],
   'runtime monitor: set-up observed after parsing random complete files, and paired runs under one seed',
   'Ground truth is the generated file; three kinds of observation (settings, paired runs, rejections).'),
 P('C04', 'Old-format parameter files give the same model as their translation',
   'A model written in the old file format (with plain or prefixed option names) gives, under the same random seed, exactly the same results as its translation to the current format. Old settings that are no longer supported, and old files that are incomplete or name facies by numbers that do not exist, are rejected before anything is written instead of being ignored; existing results are kept unless the old file asks to overwrite them.',
   ['inputs', 'configurations'], 'all models expressible in both formats', 'No test reads the old format.', [I + 'parameters.py', I + 'options_deprecated.py'],
   [('get_new_parameters_from_deprecated', I + 'parameters.py'), ('alternative names', I + 'options_deprecated.py')],
   'runtime differential monitor: paired runs of both formats under one seed',
   'All output arrays of both runs are compared bit by bit.'),
 P('C05', 'Results are replaced only on request, and nothing else is touched',
   'If the run directory already has content, a run replaces it only when overwriting is requested (the argument or command line option wins over the parameter file); otherwise it fails and leaves every byte as it was. When overwriting, everything old in the run directory is gone afterwards. No run, successful or not, removes or writes anything outside of its run directory (links are removed, not followed), and an invalid parameter file never costs existing results.',
   ['inputs', 'configurations', 'histories'], 'all directory contents, overwrite settings and parameter files, valid or not', 'No test has an existing run directory.',
   [I + 'parameters.py', 'hyvr/sim.py'], [('set_up_directories', I + 'parameters.py'), ('parsing before directory set-up', I + 'parameters.py')],
   'runtime monitor: audit hook on all file-system effects plus before/after snapshots',
   'Every effect of the run is recorded online; effects outside of the scratch directory are blocked and reported.'),
 P('C06', 'Results are stored where and as requested',
   'A run creates exactly its run directory, named after the run name or else the parameter file, in the model directory (that of the parameter file, the given one, or the one typed in); in it a backup of the parameter file and, for every realization, exactly the requested outputs, in subdirectories real_001, real_002, ... if and only if there is more than one. A format whose library is not installed is left out with a warning, without affecting the others. Running the backup file in place with the same seed reproduces the results.',
   ['inputs', 'configurations'], 'all run sections, file names and output selections', T, [I + 'parameters.py', 'hyvr/sim.py', O],
   [('run name and directories', I + 'parameters.py'), ('realization loop', 'hyvr/sim.py'), ('create_outputs', O)],
   'runtime monitor: resulting tree compared with the documented layout',
   'Complete directory listings before and after, array shapes, and reruns of the backup.'),
 P('C07', 'All data formats contain the same fields',
   'For every realization, the npz, mat, pickle, h5 and vtr files contain the same arrays with identical values, equal to the generated model, indexed x, y, z from the grid origin (vtr: without the tensors, with cell edges as coordinates). Every realization has its own results.',
   ['inputs', 'configurations'], 'all models, numbers of realizations and output selections', T, [O], [('to_mat, to_pickle, to_npz, to_hdf5, to_vtr', O)],
   'runtime differential monitor: outputs of the real run read back and compared bit by bit',
   'Readers are NumPy, SciPy, pickle, h5py and an own vtr reader.'),
 P('C08', 'Flow-model inputs describe the generated model',
   'The MODFLOW, MODFLOW 6 and HydroGeoSphere inputs describe the generated fields: each cell has its conductivity, anisotropy, angles, tensor and porosity at the right row, column and layer (layers from top to bottom), cell sizes and layer elevations are those of the grid, and boundary and initial heads and inflow are those requested.',
   ['inputs', 'configurations'], 'all models, grids with unequal spacings and boundary conditions', 'No test writes flow-model output.', [O],
   [('to_modflow', O), ('to_mf6', O), ('to_hgs', O)],
   'runtime monitor: written flow models loaded with flopy/NumPy and compared cell by cell',
   'Precision of the text files bounds what is seen.'),
 P('C09', 'Runs are reproducible from the random seed',
   'The results depend only on the parameter file and the state of NumPy\'s random generator: same seed, same results, whatever ran before in the process, in which process, directory or environment, and whatever outputs are requested. A run with several realizations gives the same as as many single runs continuing the random sequence, and different realizations and seeds of a random model differ.',
   ['histories', 'configurations', 'inputs'], 'all models, seeds, histories of runs in one process and environments', 'The seeded test compares one model with a stored file (and does not pass here).',
   ['hyvr/sim.py', G + 'model.py', 'hyvr/utils.py', O], [('no state kept between realizations', G + 'model.py')],
   'runtime monitor: paired and chained runs, generator state compared',
   'Bit-identical arrays and generator states over perturbed histories and processes.'),
 P('C10', 'Cells are where the grid says',
   'The output has one value per cell of the grid given by origin, cell size and domain size, in every direction, for any origin and spacing, and independent of rounding in the sizes. Every index of the output belongs to the cell whose centre lies (index + 1/2) cell sizes from the origin.',
   ['inputs'], 'all origins, spacings and domain sizes', T, [G + 'grid.py', 'hyvr/assign_points.py', O], [('Grid', G + 'grid.py'), ('assign_points', 'hyvr/assign_points.py')],
   'runtime monitor: tiny objects placed into known cells of random grids ("pins"), and output shapes',
   'The cell of the pin is computed from the file alone.'),
 P('C11', 'Strata contacts lie where the file puts them',
   'A flat contact puts every cell centre above it into a higher stratum than every one below; a random contact does so around the given mean height, with the given variance and correlation lengths in x and y, independently of all other contacts. Contacts never cross: where one would be above the contact or the model top over it, it is lowered to it, and where one would be below the model bottom, it is raised to it, so that strata always fill the domain in the given order.',
   ['inputs'], 'all contact models, heights (also unordered or outside the domain) and grids', T,
   [G + 'contact_surface.py', G + 'contact_surface_utils.py', G + 'model.py'], [('use_lower/use_higher_surface_value', G + 'contact_surface.py'), ('generate_model', G + 'model.py')],
   'runtime monitor: cells compared with the file; invariants asserted on all generated surfaces',
   'Flat and zero-variance contacts are predicted from the file alone; random ones by their mean and by ordering invariants.'),
 P('C12', 'Every cell is filled, in stratigraphic order',
   'After every run, each cell of the model has a stratum, an architectural element, a facies of the list of hydrofacies and finite angles. Going down any column, the stratum and element numbers never decrease, and cells belong to the stratum and element whose surfaces enclose their centre.',
   ['inputs'], 'all models, including strata that pinch out and contacts through cell centres', T,
   ['hyvr/assign_points.py', G + 'stratum.py'], [('assign_points', 'hyvr/assign_points.py'), ('use_lower/use_higher_surface_value', G + 'contact_surface.py')],
   'runtime monitor: completeness and order invariants on all cells of real runs',
   'Pure output-level invariants plus exact predictions for flat models.'),
 P('C13', 'Each cell belongs to the uppermost object containing it',
   'A cell is part of an object exactly if its centre lies inside the object\'s shape; where several objects (also of the element above, whose erosive objects may reach down) contain it, the one that comes first from the top wins; where none does, it is background of its element. In periodic models, shapes continue across the sides of the domain.',
   ['inputs'], 'all models, overlapping objects, cells on object rims, periodic wrap-around', T,
   ['hyvr/assign_points.py', G + 'trough_ae.pyx', G + 'channel_ae.pyx', G + 'sheet_ae.py'], [('assign_points search order', 'hyvr/assign_points.py'), ('maybe_assign_points_to_object', G + 'trough_ae.pyx')],
   'runtime monitor: brute-force membership oracle over all objects for every cell',
   'The oracle evaluates the definition of all shapes for all cells without any of the shortcuts of the code.'),
 P('C14', 'Sheets and lenses fill their element as requested',
   'A massive element made of one sheet fills everything between its surfaces; with a lens thickness it is divided into lenses of that thickness from the top of the element down, the last one ending at its bottom. Dipping sheets have layers of the given thickness whose normal vector is given by the requested dip and azimuth as in the documented rotation matrix, angles lie in the given ranges, and facies are drawn evenly from the entries of the element\'s list (one that is listed twice is twice as likely), following the alternation, if one is given, in the same way. Dip, azimuth and facies are drawn anew for every sheet, independently of each other and of other sheets.',
   ['inputs'], 'all sheet elements, surfaces, thicknesses and dips', T, [G + 'sheet_ae.py', G + 'sheet.py', 'hyvr/utils.py'],
   [('generate_objects', G + 'sheet_ae.py'), ('dipping layers', G + 'sheet.py'), ('get_alternating_facies', 'hyvr/utils.py')],
   'runtime monitor: predicted lens and layer of every cell against the output',
   'Predictions from the file alone where contacts are flat; otherwise from the generated surfaces.'),
 P('C15', 'The inside of troughs follows their structure',
   'Inside a trough, cells in the lag at its bottom have the lag facies; the other cells have facies of the element, in layers of the given thickness for dipping and nested-bulb structures (alternating as requested), otherwise one facies. Angles are those of the drawn dip and azimuth (massive, dipping), zero (flat), or those of the tangential plane of the trough\'s nested ellipsoids, facing the inside, with dips limited to the given one (bulbs). Troughs of random structure have each of the four structures with the same probability. Dip, azimuth and facies are drawn evenly from the given ranges and lists, anew for every trough and independently of each other.',
   ['inputs'], 'all trough shapes, orientations, structures, lags and cell positions', 'The trough unit test does not run here and checks single points of one trough.',
   [G + 'trough_ae.pyx', G + 'trough.pyx'], [('maybe_assign_points_to_object', G + 'trough_ae.pyx'), ('Trough', G + 'trough.pyx')],
   'runtime monitor: independent layer/normal/lag computation for every trough cell',
   'Cells within rounding of a layer or lag boundary are not judged.'),
 P('C16', 'Troughs are placed and sized as requested',
   'Manually given troughs lie exactly at the given coordinates. Randomly placed troughs lie on levels separated by the aggradation distance, above the buffer, with independent Poisson-distributed numbers for the given density and uniformly distributed positions and orientations, all drawn independently of each other; with migration they follow the trough above by a normally distributed step with the given mean and spread in x and y, drawn anew for every trough, level and direction. Sizes are the given ones times the linear size trend at their height.',
   ['inputs'], 'all trough elements and random states', T, [G + 'trough_ae.pyx', G + 'trough_utils.py', G + 'trough.pyx'],
   [('generate_objects', G + 'trough_ae.pyx'), ('size trend', G + 'trough_ae.pyx')],
   'runtime monitor: object properties checked per trough, distributions checked on the pooled log',
   'Statistical limits of 6 sigma / KS 2.6, so chance practically never trips them.'),
 P('C17', 'The inside of channels follows their structure',
   'Inside a channel, cells in the lag at its bottom have the lag facies; other cells have one facies of the element (massive) or layers of the given thickness that follow the distance along the centreline and depth at the requested dip (dipping), alternating as requested. Massive channels have one azimuth and dip out of the given ranges, dipping ones the azimuth of the local flow direction and one dip; all of these are drawn anew for every channel, evenly from the given ranges and lists.',
   ['inputs'], 'all channels, flow directions, dips, lags and cell positions', T, [G + 'channel_ae.pyx', G + 'channel.pyx'],
   [('maybe_assign_points_to_object', G + 'channel_ae.pyx'), ('Channel', G + 'channel.pyx')],
   'runtime monitor: independent layer/flow/lag computation for every channel cell',
   'Cells with two equally near centreline points are not judged for their layer.'),
 P('C18', 'Channels are placed and sized as requested',
   'A channel has a parabolic cross-section of the given width and depth (times the linear size trend at its height) around a centreline that starts upstream of the domain, equally likely anywhere across its extent as seen in flow direction, and runs through it in the given flow direction, which is the mean of its directions, for any grid origin and point distance; its directions are the documented second-order autoregressive process, bending to both sides alike, with its own noise for every channel. Each level, separated by the aggradation distance and above the buffer, has the given number of channels, migrating from level to level by a uniformly distributed step of at most the given distance, wherever they are and independently for every channel and level.',
   ['inputs'], 'all channel elements, grids and random states', T, [G + 'channel_ae.pyx', G + 'channel_utils.py', G + 'channel.pyx'],
   [('generate_objects', G + 'channel_ae.pyx'), ('ferguson_curve', G + 'channel_utils.py')],
   'runtime monitor: cross-sections measured in the output, channel properties and pooled start positions',
   'Straight channels are judged from the output alone.'),
 P('C19', 'Facies and background come from the right place',
   'Cells outside of objects have the background facies, azimuth and dip of their element where it gives them, otherwise those of their stratum. Cells of objects only have facies that their element lists, or its lag facies, and objects without layers have one facies besides the lag.',
   ['inputs'], 'all models and background settings', T, [G + 'ae_realization.py', 'hyvr/assign_points.py', I + 'parameters.py'],
   [('background values', G + 'ae_realization.py'), ('assign_points', 'hyvr/assign_points.py')],
   'runtime monitor: output-level invariants for every cell', 'From output and file alone.'),
 P('C20', 'Identifiers in the output are consistent',
   'The element type of every cell is the position of its type in the file\'s list and is allowed in the cell\'s stratum; each element number stands for one element of one type in one stratum, each object number for one object of one element, both counted from the top without gaps, and background is marked by -1.',
   ['inputs'], 'all models', T, [G + 'model.py', 'hyvr/assign_points.py'], [('numbering', G + 'model.py')],
   'runtime monitor: consistency of identifier arrays, and prediction from the file', 'From output and file; the counts also from the generated model.'),
 P('C21', 'Without internal heterogeneity cells have the values of their facies',
   'When heterogeneity is off or at facies level, conductivity, porosity and anisotropy ratio of each cell are exactly those the file lists for its facies. With hydraulics off there are no hydraulic fields, and the geological fields are the same as with hydraulics.',
   ['inputs', 'configurations'], 'all models', T, [G + 'model.py'], [('generate_hydraulic_parameters', G + 'model.py')],
   'runtime monitor: exact comparison of every cell', 'From output and file alone.'),
 P('C22', 'Internal heterogeneity has the requested statistics and trends',
   'With internal heterogeneity, log-conductivity and porosity of every object and background vary around the value of the facies with the variance and (exponential) correlation lengths of that facies in x, y and z, independently of each other and of other objects. They are multiplied by the linear trends of the element, in its own cells only, and of the whole model, from the first to the last cell in x and z; with zero variance the values are exactly these products.',
   ['inputs'], 'all models, variances, correlation lengths, trends and random states', T, [G + 'model.py', 'hyvr/utils.py'],
   [('generate_hydraulic_parameters', G + 'model.py'), ('specsim', 'hyvr/utils.py')],
   'runtime monitor: exact values without variance, pooled second moments with variance', 'Moments pooled over all objects, 6 sigma.'),
 P('C23', 'Conductivity tensors match conductivity, anisotropy and bedding',
   'The tensor of every cell is symmetric and positive definite, equals the conductivity within the bedding plane given by azimuth and dip, and the conductivity divided by the anisotropy ratio perpendicular to it.',
   ['inputs'], 'all conductivities, ratios and angles', T, ['hyvr/optimized.py', G + 'model.py'], [('set_anisotropic_ktensor', 'hyvr/optimized.py')],
   'runtime monitor: closed-form tensor and eigenvalues for every cell', 'Relative tolerance 1e-9.'),
 P('C24', 'Random fields have the requested covariance',
   'Every random field has the shape of the grid (or one value per selected cell), mean zero over its box, the given variance, and the correlation of the chosen model (Gaussian or exponential) with the given lengths along each axis; its values are normally distributed, and successive fields are independent. It scales with the standard deviation, vanishes without variance, and values of selected cells do not depend on which other cells of the box are selected; unknown covariance models are rejected.',
   ['inputs'], 'all grids, variances, correlation lengths, models, selections and random states', 'The existing test of this function does not run here and looks at one field.',
   ['hyvr/utils.py'], [('specsim', 'hyvr/utils.py')],
   'runtime monitor: exact invariants per field, pooled second moments', 'Pooled deviations below 6 sigma are not seen.'),
 P('C25', 'Compiled parts never access memory wrongly or crash',
   'For every valid parameter file, however extreme, the compiled parts build, never read or write outside of their arrays, never run into undefined behaviour, never swallow an exception, and never bring the process down.',
   ['inputs'], 'all valid parameter files', T, [G + 'trough_ae.pyx', G + 'channel_ae.pyx', G + 'trough.pyx', G + 'channel.pyx'],
   [('bounds of loops over objects and centrelines', G + 'channel_ae.pyx')],
   'AddressSanitizer + UBSan + Cython bounds checks under random extreme workloads', 'Checks compiled with -O1; red zones.'),
 P('C26', 'The command line reports success and failure truthfully',
   'Running the program from the command line ends with status 0 exactly if all requested results (of the formats whose libraries are installed) have been written; for invalid or missing files, wrong usage, or an existing run directory without permission to overwrite, it ends with a non-zero status and a message on standard error and leaves all files as they were. Without a file name, the test case of the package is run in a temporary place and nothing is left or replaced. --overwrite has the same effect wherever it stands and whatever the parameter file says.',
   ['inputs', 'configurations'], 'all argument lists, parameter files and directory states', 'No test starts the program.', ['hyvr/__main__.py', 'hyvr/sim.py'],
   [('argument handling', 'hyvr/__main__.py')], 'runtime monitor: real processes, status, streams and snapshots', 'Models of sheets only.'),
 P('C27', 'Strata are filled with the requested mix of elements',
   'Each stratum is filled from its top to its bottom with elements of the types listed for it, each chosen independently with the given relative probability (never one with probability zero). The thickness of an element is normally distributed around the given mean with a standard deviation of a tenth of it, reduced with the given probability by an avulsion depth uniform in the given range, all drawn anew for every element; only the last element of a stratum is cut off.',
   ['inputs'], 'all strata, probabilities, thicknesses and random states', T, [G + 'stratum.py'], [('Stratum', G + 'stratum.py')],
   'runtime monitor: element sequence measured in the output, pooled frequencies and distribution test', '6 sigma / KS 2.6 on pooled logs.'),
 P('C28', 'Cross-section plots show the requested slice of the model',
   'For every requested y (or x) coordinate, by default the centre of the domain, the plot shows exactly the values of the chosen field (or their decadic logarithm, if asked for) in the cells at that coordinate, each at its horizontal and vertical position; an empty list gives no section, a coordinate outside of the domain a message instead of a section. Every section is displayed, labelled with its field, coordinate and axes; axis limits, if given, hold for the sections they are given for. Plotting never changes the model.',
   ['inputs'], 'all models, fields and coordinates', 'There is no test of the plots, and a figure is usually judged by eye.', ['hyvr/postprocess/plotting.py'],
   [('cross_section_pcolor', 'hyvr/postprocess/plotting.py')],
   'runtime monitor: every polygon of the figures compared with the output field', 'Read from the figure objects of matplotlib.'),
 P('C29', 'The anisotropy follows the bedding that is visible in the facies',
   'The conductivity tensors are oriented like the structure: in every object with dipping layers, the direction of the smallest conductivity (of facies whose anisotropy ratio is above one) is perpendicular to the layers in which its facies alternate, and in bulbs it is perpendicular to the ellipsoids of which they consist. (Known finding: not in dipping channels that do not run along x.)',
   ['inputs'], 'all dipping sheets, troughs, channels and bulbs, angles and orientations', T, [G + 'sheet.py', G + 'trough.pyx', G + 'trough_ae.pyx', G + 'channel_ae.pyx', 'hyvr/optimized.py'],
   [('normal vector of dipping sheets', G + 'sheet.py'), ('azimuth and dip of bulbs', G + 'trough_ae.pyx'), ('set_anisotropic_ktensor', 'hyvr/optimized.py')],
   'runtime monitor: eigenvectors of the tensors in the output against the layers of the facies', 'From file, facies, objects and tensors alone.'),
]

NOT_APPLICABLE = []


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in L:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                    quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                                    anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], hook_needed=None))) + '\n')
    man = dict(version=1, setup_cmd='./setup.sh',
               checks=[dict(property=p['id'], quick_cmd='./check.sh ' + p['id'], thorough_cmd='./check.sh %s --tier thorough' % p['id'],
                            technique=p['technique'], level='exploration', level_note=p['note'] + ' Holds for the executions observed; see the evidence file for their number and kind.')
                       for p in L],
               not_applicable=NOT_APPLICABLE,
               notes='All checks run the code of /repo\'s working tree; compiled parts are built into a scratch directory. No hooks in /repo.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
