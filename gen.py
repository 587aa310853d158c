#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
P = 'freesif/sequentialparser/parsers.py'
S = 'freesif/sequentialparser/sequentialfiles.py'
C = 'freesif/sequentialparser/sif2hdf5.py'
ST = 'freesif/data/strucdata.py'
HY = 'freesif/data/hydrodata.py'
FI = 'freesif/data/file.py'
SD = 'freesif/data/sifdata.py'
WR = 'freesif/utils/writers.py'

# id, title, statement, over, quantifier, why tests cannot, files, mechanism [(name, where)], observe
PROPS = [
 ('C01', 'Fixed-layout records arrive field by field',
  'For every Interface File record type of fixed layout that is supported, converting a file stores one row per record, in file order, and each field of the record is found, unchanged, in the column documented for that field; integers stay integers, reals stay reals, matrices keep their shape, missing optional fields read as zero.',
  ['inputs'], 'every supported fixed-layout record type, all field values, formatted and unformatted files, full and short last lines, any block size of an unformatted record, runs of one or several records and runs resumed later in the file',
  'The tests convert a few sample files and check that a file comes out; no test compares the numbers of a record with the columns, and the sample files use a fraction of the record types.',
  [P, S], [('record descriptors and readers', P), ('number readers of the two file formats', S)], ['sif2hdf5()', 'tables of the HDF5 file']),
 ('C02', 'Variable-length parts belong to their own row',
  'For every record type with a variable-length part (connectivity, set members, result points, result values, texts, ...) each stored row refers to exactly the elements its own record carried, in order, and to none when the record carried none; the length of a part that depends on other records (element type, result points, component definitions, complex flags) is taken from the records it refers to.',
  ['inputs', 'histories'], 'every record type with variable parts, all contents and all lengths up to the bound, sequences of records and resumed runs, both file formats',
  'Tests only check that a file is produced or compare totals of one sample model; a slice shifted by one row or one value goes unnoticed.',
  [P], [('start/stop columns and element arrays', P), ('look-up of lengths in earlier records', P)], ['sif2hdf5()', 'tables and arrays of the HDF5 file']),
 ('C03', 'Records that are not read leave the others intact',
  'Records of types that are not supported, records marked to be ignored, and records left out by the `only` argument are skipped exactly: everything before and after them is converted as if they were not in the file, and nothing is stored for them.',
  ['inputs', 'configurations'], 'skipped records of both layouts (with and without field count), text records, any contents and several lengths, one or two in a row, both file formats, any block size',
  'The sample files contain only a few unsupported record types and no test uses `only`.',
  [S, P, C], [('skipping the rest of a record', S), ('dispatch on record names and `only`', P)], ['sif2hdf5()', 'RECORDS of the stored data']),
 ('C04', 'Formatted and unformatted files convert to the same data',
  'A formatted and an unformatted file holding the same records convert to the same data, for every order in which record types follow one another: no reader takes numbers of a neighbouring record or leaves some behind.',
  ['inputs', 'histories'], 'pairs of record types in the orders ABA (quick) and AABAB (thorough), all contents, short/full last lines and several block sizes',
  'Tests have one format per sample model, so nothing compares the two, and each sample has one record order.',
  [S, P], [('number readers', S), ('record readers returning the next header', P)], ['sif2hdf5()']),
 ('C05', 'No record is lost or repeated whatever the number of records',
  'However many records of a type a file holds, in one run or several, all of them are stored once, in order, with their variable parts; no internal buffer size is visible in the result.',
  ['inputs'], 'runs of 0 to 2b+1 (thorough 3b+1) records for buffer sizes b = 1, 2, 3, one to three runs, records with variable parts of varying length, both formats',
  'The sample models have fewer records of a type than the buffer holds (100000), so its overflow is never run.',
  [P], [('row buffer and its flush', P + ': recdata, vldata')], ['tables and arrays of the HDF5 file']),
 ('C06', 'Formatted files written can be read back',
  'Records, numbers and texts written with the formatted-file writer come out as a valid formatted file (8-character name, at most four 16-character numbers per line) and reading the file gives the same names, numbers and texts in the same order; reading the numbers of a record in pieces of any size gives the same numbers in both file formats.',
  ['inputs', 'histories'], 'sequences of up to four write calls of 0 to 12 numbers each; every division of records of up to 13 numbers into pieces; both formats',
  'No test writes a formatted file or reads numbers in pieces.',
  [S], [('line writer with remaining places', S), ('left-over numbers between reads', S)], ['FormattedFile, UnformattedFile']),
 ('C07', 'Superelement hierarchies land in the documented groups',
  'Converting the top-level file of a superelement hierarchy finds the files of the lower levels, skips those that do not exist, and stores each superelement (input files) or each repetition of a first-level superelement (results files) in its own documented group with the attributes that tell its level and type; data already in an HDF5 file survive appending.',
  ['inputs', 'configurations'], 'hierarchies of up to three levels with repeated superelements, any subset of the files present, both formats and file name cases, prefixes, appending, several files in one call',
  'Tests convert two sample hierarchies and do not check which file went into which group.',
  [C, P, FI], [('candidate file names from the hierarchy', C), ('group paths', P), ('group attributes', P)], ['sif2hdf5()', 'group layout and attributes', 'File.keys()']),
 ('C08', 'Conversions in one session do not influence one another',
  'The data stored by converting a file are the same whatever was converted before in the same session, including after a conversion that failed.',
  ['histories'], 'every ordered pair of conversions of a set of small files (structural and hydrodynamic, hierarchies, results) with symbolic contents, including conversions that end in an error',
  'Tests convert each file in whatever session state there is and compare nothing.',
  [P, C], [('module state and its reset between files', P)], ['sif2hdf5()']),
 ('C09', 'Nodes, elements and connectivity agree for every selection',
  'For every selection by sets, by element kind, by both, or none, connected or disconnected, the connectivity, offsets and types of the elements point to coordinates and node numbers of exactly the nodes those elements were defined with; the selection holds exactly the elements that are members of the sets and of the kind, each once.',
  ['inputs'], 'models with up to three elements of all element types, symbolic coordinates and external numbers, all set memberships up to the bound, all selections',
  'Tests compare array shapes for one sample model and a handful of selections.',
  [ST, SD], [('set members, kinds, renumbering of connectivity', ST), ('variable-length look-up', SD)], ['get_nodes()', 'get_elements()']),
 ('C10', 'Numbers and properties line up with nodes and elements',
  'Node numbers line up with the coordinates and element numbers, types, section properties and shell thicknesses line up with the elements, for every selection; set names and result case names are those of the file.',
  ['inputs'], 'models with up to three elements, symbolic external numbers, geometry references and properties; all selections',
  'Tests compare shapes, not which row belongs to which element.',
  [ST], [('column look-ups by element index', ST), ('geometry reference to row map', ST)], ['get_nodenumbers()', 'get_elementnumbers()', 'get_section_properties()', 'get_shell_thicknesses()', 'get_setnames()', 'get_resultcase_names()']),
 ('C11', 'Node results belong to the asked run, cases and nodes',
  'Node displacements, velocities and accelerations hold, for every requested result case of the requested run and every selected node, the six numbers that the file gives for that node and case (complex when the cases are), with the same node order as the coordinates of the same selection, connected or disconnected; mixing real and complex cases is refused.',
  ['inputs', 'configurations'], 'up to 3 nodes, 3 result cases in 2 runs, real or complex, all selections and ways to give the cases, all values symbolic',
  'Tests compare shapes and a few values for one sample results file.',
  [ST], [('result case selection', ST), ('row filter and reshape', ST)], ['get_noderesults()']),
 ('C12', 'Element results belong to the asked run, cases and elements',
  'Beam forces and shell stresses hold, for every requested result case and every selected element, the values that the file gives at the result points that lie at the element nodes, lower and upper surface in order, and line up with the disconnected nodes of the same selection.',
  ['inputs', 'configurations'], 'models of 1 to 3 beams or shells of each type, up to 3 result cases in 2 runs, real or complex, selections by set, all values symbolic',
  'Tests compare shapes and a few numbers of one sample model.',
  [ST], [('processing per element type', ST), ('row filter and reshape', ST)], ['get_elementresults()']),
 ('C13', 'Extrapolation and decomposition of stresses are consistent',
  'Extrapolating result-point values of curved beams and thick shells to the nodes reproduces every field that is linear over the element and through its thickness, and membrane plus/minus bending stresses give back the surface stresses; transverse shear of general stresses vanishes at the surfaces and, in decomposed stresses, is 1.5 times the value of the layers where both layers agree.',
  ['inputs'], 'all stress states at the result points (symbolic), each element type, real and complex',
  'Tests compare one sample; a wrong matrix entry changes only some nodes.',
  [ST], [('extrapolation and decomposition matrices', ST)], ['get_elementresults()']),
 ('C14', 'Hydrodynamic results are returned in their documented layout',
  'Motion, excitation force, section force, wave kinematics and drift transfer functions, the body matrices and panel pressures are returned for the asked body (pair) only, as arrays whose axes are component, direction, frequency (and section, point, panel) with each value where the file placed it, dimensional as documented; frequencies, periods, directions, points, sections and body properties are those of the file.',
  ['inputs', 'configurations'], 'up to 2 bodies, 2-3 directions and 2-3 frequencies, 2 sections/points/panels, all values symbolic, result cases in the standard order',
  'Tests compare shapes only for one or two sample files, mostly with one body.',
  [HY, P], [('reordering by result case', HY), ('body condition look-up', HY)], ['HydroData methods']),
 ('C15', 'Transformations to any level are composed along the hierarchy',
  'The transformation of a superelement repetition to a level is the product of the transformations on the way up to that level, levels that do not exist or do not hold it are refused, and node coordinates with a transformation are the coordinates multiplied with it, whichever way the transformation is given.',
  ['inputs', 'configurations'], 'hierarchies of up to four levels with repetitions, symbolic transformations and coordinates, every level',
  'Tests use one or two repetitions of a sample model and compare shapes.',
  [ST], [('walk up the hierarchy', ST), ('affine transformation of coordinates', ST)], ['get_transformation()', 'get_nodes(trans=...)']),
 ('C16', 'Closed data are refused, open data stay usable',
  'After closing a file through the file object, through one of its data objects or by closing all files, every access to the file or its data objects raises the closed-file error and closing again does nothing; other open files stay usable, and the file can be opened again and holds the same data.',
  ['histories'], 'sequences of up to 4 open, read and close calls (quick 3) on two files, through every closing way, for structural and hydrodynamic data',
  'Tests cover one close and one access each.',
  [FI, SD], [('open flag checks', FI + ', ' + SD), ('registry of open files', FI)], ['open_hdf5()', 'close()', 'close_all_files()']),
 ('C17', 'An open file is a consistent mapping of its data',
  'keys, values, items, membership, get, subscription, iteration and the printed forms of an open file agree with each other and with the superelements stored in it, and each data object is of the class for its level and type.',
  ['inputs', 'configurations'], 'files with any combination of up to three of: single superelement, structural hierarchy, results hierarchy, hydrodynamic data; with prefixes',
  'Tests use files with a single known group.',
  [FI, SD], [('data objects made per group', FI)], ['File']),
 ('C18', 'VTU files hold the given geometry and data',
  'A VTU file written with VtuWriter is well-formed XML, and its encoded arrays decode to exactly the given points, connectivity, offsets, cell types and data arrays, with their types, names, components and component names: connectivity of 23 and 28 and cell-point data of 26 put corners first, all else in the given order. This holds for every combination of pieces and of point and cell data; calls out of order are refused with VtkError and, like elements that have no cell, leave no trace in the file, and the arrays of the caller are left as they were.',
  ['inputs', 'histories'], 'up to two pieces of up to three cells of all supported types, arrays of every supported number type, memory layout and one or several components, every sequence of up to five calls, all numbers symbolic',
  'Tests only check that a file comes out.',
  [WR], [('binary array encoding', WR), ('reordering for VTK', WR), ('element open/close state', WR)], ['VtuWriter', 'the written file']),
 ('C19', 'Stress measures satisfy their defining equations',
  'Principal stresses are the roots of the characteristic equation of the plane stress tensor, first one largest; von Mises stress is non-negative and its square is the von Mises quadratic form; principal stresses of thick shells are the two eigenvalues of the 3-D tensor that are largest in magnitude, the algebraically larger one first, and agree with the 2-D ones without transverse shear; leading array axes are kept and the array given is not changed.',
  ['inputs'], 'all real stress components within +-1000, arrays of up to four axes (thick shells: up to two points)',
  'Tests do not call these functions.',
  ['freesif/calc/principal.py', 'freesif/calc/vonmises.py'], [('closed formulas', 'freesif/calc')], ['calc.principal2d', 'calc.vonmises2d', 'calc.principal_thickshell']),
 ('C20', 'Signed extremes and element-node look-up are exact',
  'absmax returns along any axis the element of largest magnitude with its sign (positive on ties), and find_elemres_indices returns for each (element, node) pair the row of the element results at that node of that very element: its position within the element in the disconnected node array, except that the results of elements of type 26 go round the edge while their connectivity lists the corners first.',
  ['inputs'], 'all real arrays of up to six elements (thorough: nine) and three axes, every axis; up to four elements sharing nodes in every way, symbolic external numbers',
  'Tests do not call these functions.',
  ['freesif/calc/general.py'], [('signed maximum', 'freesif/calc/general.py'), ('index search', 'freesif/calc/general.py')], ['calc.absmax', 'calc.find_elemres_indices']),
 ('C21', 'VTF files survive reading and writing',
  'Nodes, elements and results added to a VTF data object are the ones found in the VTF file it writes, and reading that file gives them back.',
  ['inputs', 'histories'], 'all VTF data sets',
  'No test uses the VTF classes.',
  ['freesif/utils/vtfdata.py'], [('VTF text format', 'freesif/utils/vtfdata.py')], ['utils.vtfdata.VtfData']),
 ('C22', 'File names are taken apart the documented way',
  'For every name made of any prefix of letters, digits, - and _, a type letter T, L, R or G, a superelement number, an optional H and hierarchy number, and an extension FEM, SIF or SIU, in upper or lower case, the data are stored in the group of prefix, letter and number, with the type of the letter, and open_sif returns exactly that data object. Every other name, and the extension SIN, is refused with ValueError and leaves no file behind.',
  ['inputs'], 'all prefixes of up to seven symbolic characters, all kinds of files; all invalid names of up to four (thorough: six) characters',
  'Tests use a handful of file names, whose prefixes hold no letter that could start the name.',
  ['freesif/data/helpers.py', 'freesif/sequentialparser/sif2hdf5.py', 'freesif/data/file.py'],
  [('name pattern', 'freesif/data/helpers.py'), ('name pattern', 'freesif/sequentialparser/sif2hdf5.py')], ['sif2hdf5', 'open_sif']),
 ('C23', 'Queries are repeatable and independent',
  'What a query on a data object returns depends on the file and the arguments alone: not on queries made before, on the same object, on another data object of the same file or on a file with data of the same name, not on queries that failed, and not on what the caller did to the arrays that were returned. A query leaves its arguments and the file unchanged.',
  ['histories', 'inputs'], 'every ordered pair of queries out of 47 (thorough 92) on a model with results, 37 (49) on hydrodynamic results and 7 on hierarchies, with everything returned overwritten in between, on two files of the same layout and any contents',
  'Every test opens a file, asks once and compares; none asks twice, asks two things in a row of the same object, or has two files open.',
  [ST, HY, SD, FI], [('queries and what they keep between calls', ST), ('arrays kept by the data object', HY)], ['get_ methods of the data objects']),
 ('C24', 'An exported model is the model on the Interface File',
  'When the nodes, elements, node results and element results of a selection (all, by sets, by kind; connected or disconnected) are handed to VtuWriter as documented, every cell of the file that is written is an element of the selection, in order, with its number, the cell type of its element type, corner by corner the coordinates of its nodes, the displacements of those nodes and the forces or stresses of that very element at those nodes.',
  ['inputs'], 'all coordinates, results, numbers and set memberships; up to three elements of all six supported types sharing nodes; every selection, both surfaces',
  'The tests of the writer only check that a file comes out; no test follows a number from the Interface File to the exported file.',
  [ST, WR], [('node order of elements and of their results', WR), ('queries with the same selection', ST)], ['get_nodes', 'get_elements', 'get_noderesults', 'get_elementresults', 'VtuWriter']),
 ('C25', 'What a query returns can be asked for in another',
  'The names returned by get_setnames select those sets in every query that takes sets, one by one, as a list or mixed with plain strings; the case numbers returned by get_resultcase_names select those cases; and with the arrays returned for a selection, find_elemres_indices finds for each pair of an element number and a node number the results of that element at that node.',
  ['inputs', 'histories'], 'all set memberships, several kinds of names and numberings, up to three sets, cases and elements; all pairs of element and node of all supported element types',
  'No test passes on to one query what another has returned.',
  [ST, 'freesif/calc/general.py'], [('set and case look-up', ST), ('index search', 'freesif/calc/general.py')], ['get_setnames', 'get_resultcase_names', 'calc.find_elemres_indices']),
 ('C26', 'What is not on the file is refused',
  'A request that names a run, result case, body, pair of bodies, set, superelement, repetition or level that is not on the file, or asks for results, matrices, sections or thicknesses that are there for only some of the cases or elements asked for, raises an exception: data of something else, or of a part passed off as the whole, are never returned. A list of result cases stands for those of them that exist. Requests for what is there are answered as usual.',
  ['inputs'], 'all run, case, body, set, section, superelement and repetition numbers, on the file and in the request; up to three cases, two bodies and three repetitions, each of which may lack its data',
  'A test asks for a few things that are missing; what is returned for the many other ways something can be missing is never looked at.',
  [ST, 'freesif/data/hydrodata.py'], [('result case selection', ST), ('body and matrix look-up', 'freesif/data/hydrodata.py'), ('row look-up', 'freesif/data/helpers.py')], ['get_noderesults', 'get_elementresults', 'get_matrix', 'get_*_raos', 'get_transformation', 'get_section_properties']),
 ('C27', 'A file that breaks off is not taken for a whole one',
  'Converting an Interface File, or a hierarchy of them, of which a file stops before its IEND record - within a line or block, between two lines of a record, between two records, or before the first - raises an exception, whatever the kind of record, the format, the records asked for and the way of converting; a model with a part missing is never passed off as the whole. Files that end with their IEND record are converted alike in both formats, however that record is written.',
  ['inputs', 'crash points'], 'every place a file can stop at (quick: the places that matter within each line; thorough: every byte), all kinds of records read, skipped or ignored, every field value, both formats, each file of a hierarchy',
  'The sample files are whole; no test has one that stops early, and there are as many ways to stop as there are bytes.',
  [P, S], [('record loop and end of file', P), ('record readers of the two formats', S)], ['sif2hdf5()', 'open_sif()']),
 ('C28', 'A failed conversion leaves the database as it was',
  'When a conversion that adds to a database fails - the file or a lower file breaks off, is cut or lacks a needed record, or a data set of that name is there already - the data sets that were in the database, and those of the files of the list converted before, are all there with the same contents, nothing of the failed one is, the database can be opened, and later conversions add what they would have added without the failure. A failed conversion that was to replace the database leaves no partial data set, and a file that cannot be opened as a database is not kept open.',
  ['histories', 'crash points', 'inputs'], 'all field values and file contents, every place a file can break off at, up to two data sets before, a failure of each kind in each way of converting, and a conversion after',
  'The tests convert whole files into new databases; none fails half-way and looks at what is left.',
  [C, P, FI], [('clean-up after a failure', C), ('creation of tables', P), ('opening of a database', FI)], ['sif2hdf5(append=True)', 'open_hdf5()', 'tables of the HDF5 file']),
]

NOT_APPLICABLE = {
 'C21': 'the constructor of VtfData always raises AttributeError (it names a method that does not exist) and the rest of the class is unfinished Python 2 code (.next(), iteritems()): no path of it returns, so there is no behaviour to encode, and making it work would be writing it anew',
}

NOTE = ('every feasible path of the real code within the stated bounds is executed with all numbers '
        'symbolic and each assertion is decided by z3; counterexamples are replayed on the real code. '
        'Trusts: HDF5/PyTables and numpy (replaced by an in-memory model whose results are compared with '
        'the real libraries on sampled paths of every run), exact arithmetic instead of float32, the bounds in the evidence.')


def main():
    claimed = [p[0] for p in PROPS if p[0] not in NOT_APPLICABLE and
               os.path.exists(os.path.join(HERE, 'vsym', 'props', p[0].lower() + '.py'))]
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for (i, title, st, over, text, why, files, mech, obs) in PROPS:
            assert len(title) <= 80
            f.write(json.dumps(dict(
                id=i, title=title, statement=st, quantifier=dict(over=over, text=text),
                why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                             observe_at=obs, hook_needed=None))) + '\n')
    man = dict(
        version=1,
        setup_cmd='/opt/venv/bin/python check.py --selftest',
        checks=[dict(property=c,
                     quick_cmd='/opt/venv/bin/python check.py %s --tier quick' % c,
                     thorough_cmd='/opt/venv/bin/python check.py %s --tier thorough' % c,
                     technique='symbolic execution of the real Python code with z3 (all inputs within bounds), replay of counterexamples',
                     level='model_checking', level_note=NOTE) for c in claimed],
        not_applicable=[dict(property=p[0], reason=NOT_APPLICABLE.get(p[0], 'check under construction'))
                        for p in PROPS if p[0] not in claimed],
        notes='see DESIGN.md; no hooks in /repo')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
