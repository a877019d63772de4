"""Which rule decides which property, and what it rests on."""
import importlib

TRUSTED = [
    "absint/interp.py: abstract interpreter of the Python subset the repository uses (anything else: no verdict)",
    "absint/tensor.py, absint/sym.py: index-provenance domain (every element of a tensor is a constant or names the "
    "input element it was copied from) and normal forms of size expressions",
    "absint/env.py, stubs/: model of the Keras ops and layer base classes the repository calls (Keras itself is not "
    "analysed)",
]

GENERIC = ("Every grid, batch, channel and kernel size is symbolic, so one evaluation covers all of them; classes, groups, "
           "subgroups and data formats are enumerated completely (quick: the largest groups on a subset). Assumes the model "
           "of Keras's ops and base layers, and Keras sizes >= 1.")
BOUNDED = ("Padding is derived as a formula of the input size and compared with the specification on complete residue classes; "
           "kernel sizes, strides and dilations are taken from a finite list. Assumes the model of Keras's ops and of what its "
           "convolutions and poolings do with 'same' and 'valid'.")

RULES = {
    "C01": dict(module="groups", note="Finite and complete: every group and triple. Assumes the interpreter and the model of "
                "the Keras ops building the tables.",
                rule="the composition table of every group is a group table with identity 0, of the "
                "documented order, and the inverses invert it"),
    "C02": dict(module="groups", note=GENERIC, rule="the grid action's index map of every element is a signed permutation of the "
                "coordinates about the centre, one map per element, composing as the table says, for every axis placement"),
    "C03": dict(module="groups", note="Finite and complete: every group and subgroup.",
                rule="named subgroups are closed, contain the identity, and the group object of that "
                "name has the table and the action restricted to them"),
    "C04": dict(module="groups", note="Finite and complete: every group and subgroup.",
                rule="coset representatives of every subgroup: every element is a unique product of a "
                "subgroup element and a representative"),
    "C05": dict(module="groups", note=GENERIC + " Axis placements up to rank 6 (quick: a subset for the largest groups).",
                rule="the action on signals on the group moves grid positions with the element and group "
                "entries with its left product; entries outside of the domain are zero"),
    "C06": dict(module="convs", note=GENERIC + " For groups of order > 8 the quick run checks generators, which imply the rest.",
                rule="K(phi_a u, a^-1 g, a^-1 h) = K(u, g, h) for the kernel that reaches the network "
                "convolution, for every acting element a"),
    "C07": dict(module="convs", note=GENERIC,
                rule="the kernel entries of every output element are the group transform of the stored "
                "kernel; the identity uses each stored weight once; entries outside of the subgroup are zero"),
    "C08": dict(module="convs", note=GENERIC,
                rule="output = activation(convolution + bias[filter]) with one bias per filter"),
    "C09": dict(module="convs", note=GENERIC,
                rule="output axes and sizes, strides, dilation, data format passed to the convolution, "
                "no channel lost or doubled, batch entries apart"),
    "C10": dict(module="padding", level="other", note=BOUNDED,
                rule="for every residue of the input size, the padding accepted without "
                "allow_non_equivariance samples every axis symmetrically about its centre"),
    "C11": dict(module="padding", level="other", note=BOUNDED,
                rule="the padding formula equals the least symmetric padding for the *_equiv options, "
                "none for plain 'same'/'valid', and a ValueError exactly where no symmetric padding exists"),
    "C12": dict(module="contract", level="other", note="The kinds of misuse are a list; within a kind all sizes are symbolic and every "
                "path of the program must end in an exception of the documented kind.",
                rule="every path of a misuse ends in an exception of the documented kind"),
    "C13": dict(module="contract", level="other", note="Every operation of the environment reachable in a call is made to raise, for each "
                "enumerated configuration; sizes are symbolic. Exceptions between two operations (signals) are not modelled.",
                rule="on every exceptional exit of a call the layer's visible state is that before the call, "
                "and the next call computes the same"),
    "C14": dict(module="contract", level="other", note="Options are a list covering every constructor argument; sizes are symbolic. "
                "Keras's own serialization of initializers and the like is modelled as identity.",
                rule="get_config is JSON, and from_config of it has the same "
                "configuration and the same behaviour on every path"),
    "C15": dict(module="shapes", level="other", note=BOUNDED,
                rule="the shape formula returned by compute_output_shape equals the shape formula of the output"),
    "C16": dict(module="pooling", note=GENERIC, rule="output entry h pools exactly the input entries h*t (t the coset "
                "representatives) with equal weight, inside the configured window of the network pooling"),
    "C17": dict(module="pooling", note=GENERIC, rule="global pooling aggregates every group entry and grid point exactly once, one "
                "result per batch entry and channel"),
    "C18": dict(module="surface", note=GENERIC, rule="every documented name is bound to the group or layer of that name; layers made by "
                "name, by group object and through the group specific names compute the same cells"),
    "C19": dict(module="measure", note=GENERIC + " The layer is an uninterpreted function of its input; all groups, subgroups as acting, "
                "domain and target (quick: combinations of the largest groups on a subset), a list of axis placements.",
                rule="the result is the maximum of |L(a s) - a L(s)| over exactly all acting elements, output entries and positions"),
    "C20": dict(module="axes", note="Every size is symbolic or enumerated, every pair of axes counted from the same end, ranks to 6.",
                rule="every axis utility is the permutation or merge of elements it documents, and its shape function agrees"),
    "C21": dict(module="surface", note=GENERIC, rule="after new values are assigned the call reads them and nothing older; no value is detached "
                "from the gradient or decides a branch; the variables are one kernel and one bias per filter"),
    "C22": dict(module="surface", level="other", note="Pairs and sequences from a list of uses of the same groups (2D, 3D, "
                "convolutions, pooling, direct actions); sizes symbolic. Each use alone is analysed in a process of its own.",
                rule="what a use computes is the same alone and interleaved with other uses; group tables and the caller's arguments are "
                "never modified"),
    "C23": dict(module="shapes", note=GENERIC, rule="with the batch size hidden from the program, it computes the same tensors and "
                "takes the same decisions"),
    "C24": dict(module="numeric", note="Types are a property of the abstract tensors (Keras's promotion rules); sizes symbolic. All "
                "groups and layers, five dtype policies given to the layer or globally (quick: groups up to order 16 for layers).",
                rule="actions return the signal's type and move it as they move float32; the network operation, the output and the "
                "variables of a layer have the types of its dtype policy"),
    "C30": dict(module="plain", note="Relational: both layers are evaluated abstractly on the same signal and everything they compute is "
                "compared. All sizes symbolic; options from a list.",
                rule="with a subgroup of order one the call computes, cell by cell, what Keras's layer with the same options computes on the "
                "signal with joined group entries; pooling and the network operation's options likewise for every group"),
    "C29": dict(module="options", note="The reference is the model of Keras's own layer with the same options on the signal with group "
                "entries merged into the channels. Every option of Keras's layers that does not concern the group, alone and all "
                "together; sizes symbolic. Assumes that Keras does with the recorded options of a variable what it does elsewhere.",
                rule="variables are created with the shape, initializer, regularizer, constraint and trainability of Keras's layer, the "
                "activity penalty is applied once to the output, names are as given, unknown options are rejected"),
}


def load(prop):
    e = dict(RULES[prop])
    e["fn"] = getattr(importlib.import_module("rules." + e["module"]), e.get("name", prop.lower()))
    return e
