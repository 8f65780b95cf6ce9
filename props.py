"""The properties' drivers: sources (in checks/), libraries, extents."""

ALG = ["core", "feature", "algorithm"]


def parts(name, n):
    return ["%s:%d" % (name, i) for i in range(n)]


PROPS = {
    "P01": {"sources": parts("p01_execution.cc", 4), "libs": ALG, "factor": 4,
            "technique": "property-based testing: differential of execution "
                         "policies and numbers of threads, over generated "
                         "data around the block sizes"},
    "P02": {"sources": ["p02_index_ranges.cc"], "libs": ["core", "algorithm"],
            "factor": 6,
            "technique": "property-based testing: exact cover invariant over "
                         "generated sizes and thread counts"},
    "P03": {"sources": parts("p03_local.cc", 9), "libs": ALG, "factor": 8,
            "technique": "property-based testing: element-wise reference "
                         "model over generated shapes, no-data patterns and "
                         "execution policies"},
    "P04": {"sources": parts("elementary.cc", 11), "libs": ALG, "factor": 4,
            "technique": "property-based testing: differential against exact "
                         "128 bit and extended precision arithmetic, all "
                         "value type pairs"},
    "P05": {"sources": parts("elementary.cc", 11), "libs": ALG, "factor": 4,
            "technique": "property-based testing: range decided by exact 128 "
                         "bit arithmetic, operands generated around the "
                         "limits, all value type pairs"},
    "P06": {"sources": parts("elementary.cc", 11), "libs": ALG, "factor": 4,
            "technique": "property-based testing: domains written out as "
                         "mathematical predicates, values against extended "
                         "precision"},
    "P07": {"sources": parts("p07_boole.cc", 6), "libs": ALG, "factor": 5,
            "technique": "property-based testing: truth tables over all "
                         "argument dimensionalities and mixed value types"},
    "P08": {"sources": parts("p08_select.cc", 5), "libs": ALG, "factor": 7,
            "technique": "property-based testing: element-wise reference "
                         "model over all argument dimensionalities"},
    "P09": {"sources": parts("p09_simple.cc", 3), "libs": ALG, "factor": 7,
            "technique": "property-based testing: element-wise reference "
                         "model over generated data and execution policies"},
    "P10": {"sources": ["p10_offset.cc"], "libs": ALG, "factor": 6,
            "technique": "property-based testing: index shift reference "
                         "model over generated data and distances"},
    "P11": {"sources": ["p11_no_data.cc"], "libs": ALG, "factor": 6,
            "technique": "property-based testing: set algebra reference "
                         "model over generated masks"},
    "P12": {"sources": ["p12_compress.cc"], "libs": ALG, "factor": 6,
            "technique": "property-based testing: filter reference model and "
                         "compress/decompress round trip"},
    "P13": {"sources": parts("p13_statistic.cc", 3), "libs": ALG, "factor": 5,
            "technique": "property-based testing: fold over the valid "
                         "elements in exact arithmetic, over generated "
                         "no-data patterns and execution policies"},
    "P14": {"sources": parts("p14_accumulator.cc", 2), "libs": ["core"], "factor": 4,
            "technique": "property-based testing: stateful, histories of "
                         "additions, merges and assignments against a list "
                         "of values"},
    "P15": {"sources": parts("p15_convolve.cc", 8), "libs": ALG, "factor": 3,
            "technique": "property-based testing: weighted sum over the "
                         "available cells in extended precision, for all "
                         "policy combinations"},
    "P16": {"sources": parts("p16_difference.cc", 3), "libs": ALG,
            "factor": 5,
            "technique": "property-based testing: difference formulas in "
                         "extended precision over generated rasters"},
    "P17": {"sources": ["p17_slope.cc"], "libs": ALG, "factor": 3,
            "technique": "property-based testing: Horn's formula in extended "
                         "precision, and metamorphic relations (level, "
                         "mirroring, transposing, scaling)"},
    "P18": {"sources": parts("p18_representation.cc", 4), "libs": ALG,
            "factor": 4,
            "technique": "property-based testing: metamorphic relation "
                         "between representations of no-data, and "
                         "mark/detect round trip"},
    "P19": {"sources": ["p19_containers.cc"], "libs": ["core", "feature"],
            "factor": 5,
            "technique": "property-based testing: stateful, histories of "
                         "masking operations against a model; clones of "
                         "generated shapes in one to three dimensions"},
    "P20": {"sources": ["p20_thread_pool.cc"], "libs": ["core", "algorithm"],
            "factor": 1, "timeout": 120, "schedule_dependent": True,
            "technique": "property-based testing: generated mixes of tasks, "
                         "submitters and pauses on real threads; invariants "
                         "over the history (exactly once, order, results)"},
    "P21": {"sources": ["p21_symbols.cc"], "libs": ["core"], "factor": 10,
            "technique": "property-based testing: stateful, histories of "
                         "scopes and definitions against a list of maps, and "
                         "of pushes and pops against a list"},
    "P22": {"sources": ["p22_feature.cc"], "libs": ["core", "lang_feature"],
            "factor": 3,
            "technique": "property-based testing: stateful, histories of "
                         "additions and lookups against a map by path"},
    "P23": {"sources": ["p23_string.cc"], "libs": ["core"], "factor": 16,
            "technique": "property-based testing: definitions written out "
                         "character by character, and round trips, over "
                         "generated text and near-numbers"},
    "P24": {"sources": ["p24_paths.cc"], "libs": ["core"], "factor": 16,
            "technique": "property-based testing: paths and data names "
                         "generated from their parts, parsed and printed "
                         "back"},
    "P25": {"sources": ["p25_types.cc"], "libs": ["core"], "factor": 20,
            "technique": "property-based testing: type sets against sets of "
                         "numbers; names written and read"},
    "P33": {"sources": ["p33_expression_type.cc"],
            "libs": ["core", "feature", "lang_feature", "operation"],
            "factor": 30,
            "technique": "property-based testing: deduction rules in terms "
                         "of a ranking, and permutation of arguments"},
    "P34": {"sources": ["p34_messages.cc"], "libs": ["core"], "factor": 12,
            "technique": "property-based testing: templates filled in by a "
                         "model, for generated particulars, over ways to "
                         "copy, throw and wrap errors"},
    "P26": {"sources": ["p26_netcdf.cc"],
            "libs": ["core", "algorithm", "io", "netcdf"],
            "technique": "property-based testing: generated datasets written "
                         "with the netCDF library against a model of what "
                         "reading each variable gives, corrupted files, and "
                         "histories of moved handles"},
    "P27": {"sources": ["p27_gdal.cc"], "factor": 3,
            "libs": ["core", "feature", "algorithm", "io", "gdal"],
            "technique": "property-based testing: generated rasters written "
                         "with the GDAL library against what reading them "
                         "gives, corrupted files, and histories of moved "
                         "handles"},
    "P28": {"sources": ["p28_gpx.cc"], "factor": 5,
            "libs": ["core", "io", "gpx"],
            "technique": "property-based testing: generated documents, "
                         "written in equivalent ways, against what was "
                         "written; single mistakes of known place, and "
                         "corrupted bytes"},
    "P29": {"sources": ["p29_uncertml.cc"], "factor": 30,
            "libs": ["core", "uncertainty", "uncertml2"],
            "technique": "property-based testing: generated documents "
                         "against what was written, single mistakes, "
                         "corrupted text; draws against those of the "
                         "standard distribution"},
    "P30": {"sources": ["p30_ast_xml.cc"], "factor": 25,
            "libs": ["core", "lang_feature", "operation", "ast_core",
                     "ast_xml"],
            "technique": "property-based testing: generated syntax trees, "
                         "written as XML in equivalent ways, against the "
                         "tree that is read; single mistakes and corrupted "
                         "text"},
    "P31": {"sources": ["p31_identify.cc"], "factor": 30,
            "libs": ["core", "lang_feature", "operation", "ast_core",
                     "ast_xml", "ast_visitor"],
            "technique": "property-based testing: generated scripts, against "
                         "a search of all earlier definitions of each name"},
    "P32": {"sources": ["p32_thread.cc"], "factor": 50,
            "libs": ["core", "lang_feature", "operation", "ast_core",
                     "ast_xml", "ast_visitor"],
            "technique": "property-based testing: generated scripts, against "
                         "the order in which a reference interpreter gets to "
                         "the vertices"},
    "P35": {"sources": ["p35_validate.cc"], "factor": 15,
            "libs": ["core", "lang_feature", "operation", "ast_core",
                     "ast_xml", "ast_visitor"],
            "technique": "property-based testing: generated scripts and "
                         "operations, against types and the first mistake "
                         "according to a reference"},
    "P36": {"sources": ["p36_io.cc"], "factor": 25,
            "libs": ["core", "lang_feature", "operation", "ast_core",
                     "ast_xml", "ast_visitor"],
            "technique": "property-based testing: generated scripts, against "
                         "a search of all statements for each name"},
    "P37": {"sources": ["p37_module.cc"], "factor": 25,
            "libs": ["core", "lang_feature", "operation", "ast_core",
                     "ast_xml", "ast_visitor"],
            "technique": "property-based testing: round trip of generated "
                         "scripts through the text that is written"},
    "P38": {"sources": ["p38_attribute_type.cc"], "factor": 300,
            "libs": ["core", "feature", "lang_feature"],
            "technique": "property-based testing: stateful, generated "
                         "attributes of all kinds, visited in random order by "
                         "the same visitors"},
    "P39": {"sources": ["p39_scope_exit.cc"], "factor": 300, "libs": ["core"],
            "technique": "property-based testing: stateful, histories of "
                         "creating, moving, releasing and ending guards, and "
                         "nested scopes with exceptions, against a list of "
                         "the actions that must have run"},
    "P40": {"sources": ["p40_graphs.cc"], "factor": 20,
            "libs": ["core", "lang_feature", "operation", "ast_core",
                     "ast_xml", "ast_visitor"],
            "technique": "property-based testing: generated scripts, whose "
                         "graphs are read back and compared with a walk along "
                         "the syntax tree"},
    "P41": {"sources": ["p41_execute.cc"], "factor": 60,
            "libs": ["core", "lang_feature", "operation", "ast_core",
                     "ast_xml", "ast_visitor", "execute"],
            "technique": "property-based testing: generated histories of "
                         "scripts, against symbolic evaluation"},
    "P42": {"sources": ["p42_visitor.cc"], "factor": 30,
            "libs": ["core", "lang_feature", "operation", "ast_core",
                     "ast_xml", "ast_visitor"],
            "technique": "property-based testing: generated scripts, against "
                         "a walk through the tree"},
    "P43": {"sources": ["p43_interpreter.cc"], "factor": 25,
            "libs": ["core", "lang_feature", "operation", "ast_core",
                     "ast_xml", "ast_visitor", "interpreter"],
            "technique": "property-based testing: stateful, histories of "
                         "scripts with and without mistakes, against "
                         "symbolic evaluation"},
}

NOT_APPLICABLE = {
}
