#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json: the properties, and which of them are claimed (rules/registry.py)."""
import json
import os
import sys

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, HERE)
from rules.registry import RULES  # noqa: E402

G = "groco/groups/"
L = "groco/layers/"
U = "groco/utils/"
WALL, SPACE, GROUP = G + "wallpaper_groups.py", G + "space_groups.py", G + "group.py"
CONV = [L + f for f in ("conv2d.py", "conv3d.py", "conv2d_transpose.py", "conv3d_transpose.py")]
GT, PAD, POOL = L + "group_transforms.py", L + "padding.py", L + "pooling.py"
EQ, MISC, MAN = U + "equivariance.py", U + "misc.py", U + "tensor_manips.py"

PROPS = []


def prop(id, title, statement, over, text, why, files, *mechanism):
    PROPS.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over.split(), "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]},
    })


prop("C01", "Composition and inverse tables are group tables",
     "The composition table of every symmetry group offered by name is closed, associative and invertible with element 0 "
     "as identity, its order is the documented one, and the listed inverse of every element inverts it on both sides.",
     "inputs", "every group, every triple of its elements",
     "The tests compare a few products of the small groups; Oh alone has 48^3 triples.",
     [WALL, SPACE, GROUP], ("literal tables", WALL), ("tables induced by a parent group", GROUP))
prop("C02", "The action on grids is by symmetries, composing as the table says",
     "Acting with a group on a signal on the grid stacks one rotated or reflected copy per element along the new axis: each "
     "copy is the signal moved by a rotation or reflection of the grid about its centre from the group's documented set, "
     "different elements move it differently, and acting twice equals acting with the product. The result does not depend "
     "on where spatial axes and the new axis are placed, and no other axis is touched.",
     "inputs configurations", "every group and element, every grid size, every placement of spatial and new axes up to rank 6",
     "The tests act on arrays of one size with the default placement and a few others.",
     [WALL, SPACE, GROUP], ("actions on the grid", WALL), ("permutations and flips", SPACE), ("restriction to a subgroup", GROUP))
prop("C03", "Named subgroups are subgroups and agree with the group of that name",
     "Every subgroup a group lists is closed under composition and contains the identity, and the group object of that name "
     "has exactly its elements: the same composition table and the same action on grids in the listed order. Its own "
     "subgroups and coset representatives are those of the parent restricted to it.",
     "inputs", "every group, every listed subgroup, every pair of elements",
     "Tests check orders and some products, not the agreement of index conventions between parent and subgroup.",
     [WALL, SPACE, GROUP], ("subgroup and coset dictionaries", WALL), ("translation of indices to the subgroup's", GROUP))
prop("C04", "Coset representatives factor every element uniquely",
     "For every listed subgroup, the identity is a representative of its own coset and every element of the group is the "
     "product of one subgroup element and one representative in exactly one way.",
     "inputs", "every group, every listed subgroup, every element",
     "Tests pool over a few subgroups with random input; they never enumerate the factorisation.",
     [WALL, SPACE, GROUP], ("coset dictionaries", WALL))
prop("C05", "The action on signals on a group is the regular representation",
     "Acting with element a on a signal on the group gives, at grid point x and entry g, the signal's value at the point "
     "moved back by a and entry a^-1 g; when the signal lives on a subgroup, entries outside of it are exactly 0. This "
     "holds for every acting and domain subgroup and for every position of the spatial, group and new axes.",
     "inputs configurations", "every group, acting and domain subgroup, every grid size, axis placements up to rank 6",
     "Tests cover a handful of axis placements and random arrays of a single small size.",
     [GROUP, MAN], ("action on the group", GROUP + ": _action_on_group"), ("zero filling", GROUP + ": upsample"))
prop("C06", "Group convolutions commute with the symmetries",
     "For every weights and input, transforming the input with a symmetry of the layer's (sub)group and then convolving "
     "gives the convolution's output transformed with the same symmetry, as far as the filters, bias and activation "
     "determine it; border handling and sampling are separate.",
     "inputs configurations", "every conv class, group, subgroup, data format, lifting and group valued input; every weight and size",
     "Tests sample random weights at one kernel size, tolerance 1e-4, for some subgroups.",
     [GT, GROUP] + CONV, ("kernel transformation", GT + ": transform_kernel"), ("bias repetition", GT + ": repeat_bias"))
prop("C07", "Every output entry uses the group transform of one shared kernel",
     "The kernel of each output group entry is the stored kernel transformed by that entry's element and nothing else: the "
     "entry of the identity uses every stored weight exactly once, every other entry uses each weight once in the position "
     "the symmetry moves it to, and entries the subgroup does not reach are zero.",
     "inputs configurations", "every conv class, group, subgroup, data format; every kernel size, channel and filter number",
     "Equivariance tests pass for kernels that drop, repeat or zero weights; no test looks at the kernel.",
     [GT] + CONV, ("precomputed kernel indices", GT + ": _compute_transformed_kernel_indices"))
prop("C08", "One bias per filter, added before the activation",
     "The output is the activation of the convolution plus a bias that is the same for all group entries and grid points of "
     "a filter, one stored bias per filter, or no bias when it is switched off.",
     "inputs configurations", "every conv class, group, subgroup, data format; every bias value and number of filters",
     "Keras initialises the bias with zeros, so tests with fresh layers never see where it is added.",
     [GT] + CONV, ("bias repetition", GT + ": repeat_bias"), ("swapped attributes during the call", MISC))
prop("C09", "Documented axis layout, and Keras arguments reach the convolution",
     "For both data formats, whether given as argument or by Keras's global setting, the output has the documented axes "
     "(batch, space, group, channels in the documented places) and sizes; the convolution runs with the strides, dilation "
     "and data format asked for; channels, group entries and batch entries are neither lost, doubled nor mixed, whatever "
     "batch and image sizes the layer was built or called with before.",
     "inputs configurations", "every conv class, group, subgroup, both data formats, strides and dilation; every size",
     "Tests use channels_last and square sizes, for which swapped axes often go unnoticed.",
     [GT, MAN] + CONV, ("merging and splitting the group axis", GT + ": restore_group_axis"))
prop("C10", "Accepted padding keeps the sampling symmetric",
     "Unless allow_non_equivariance is set, whatever padding a layer accepts for an input samples every spatial axis "
     "symmetrically about its centre; otherwise it raises a ValueError. This covers all four padding options, kernel or "
     "pool sizes, strides, dilations and input sizes of convolutions, transposed convolutions and pooling.",
     "inputs configurations", "every layer class and padding option, every input size, kernel/pool size and stride within bounds",
     "Tests try a few sizes; which sizes fail depends on residues modulo the stride.",
     [PAD, GT, POOL], ("padding arithmetic", PAD + ": compute_equivariant_padding"), ("before/after split", PAD + ": split_padding"))
prop("C11", "Padding options do what they document, and no more",
     "valid_equiv and same_equiv pad the least extra amount on top of valid and same that makes the sampling symmetric, "
     "valid and same pad nothing extra, and a ValueError is raised exactly when no such padding exists, or would be needed "
     "but was not allowed. With allow_non_equivariance set, valid and same are Keras's own.",
     "inputs configurations", "every layer class and padding option, every input size, kernel/pool size and stride within bounds",
     "Tests assert a few expected paddings and errors; minimality and spurious errors need every residue.",
     [PAD, GT, POOL], ("padding arithmetic", PAD + ": compute_equivariant_padding"), ("errors", PAD + ": build"))
prop("C12", "Misuse raises instead of computing something else",
     "Unknown groups, subgroups or padding options, signals whose group axis is missing, appears later or has another size "
     "than the layer's group, signals of another rank, and groups acting on another number of dimensions are rejected with "
     "an exception when the layer is constructed or called; padding options with TypeError, signals without the needed "
     "group axis with ValueError.",
     "inputs configurations histories", "every layer class, kinds of misuse x groups x subgroups x data formats, also on later calls",
     "A handful of error cases is tested; silent garbage of the right shape is what a test of valid uses cannot see.",
     [PAD, POOL, GT, GROUP] + CONV, ("option parser", PAD + ": format_padding_option"), ("input specs", CONV[0] + ": build"))
prop("C13", "A call leaves the layer as it was, however it ends",
     "After a call that returns or raises at any point, the layer's kernel, bias, filters, variables and configuration are "
     "those from before; the exception reaches the caller, and calling again with the same input computes the same result, "
     "also after inputs of other sizes.",
     "fault_sequences histories configurations", "every layer class; an exception of each kind at every operation of a call",
     "Tests never interrupt a call; after the first failure the layer would hold transformed weights.",
     [MISC] + CONV, ("backup and restore", MISC + ": backup_and_restore"))
prop("C14", "A layer rebuilt from its configuration is the same layer",
     "get_config of every layer is serializable to JSON, and from_config of it gives a layer of the same class that has the "
     "same configuration, accepts and rejects the same inputs and computes the same function of the same weights.",
     "configurations inputs", "every public layer class, options given by name, object, int, list or tuple, or left to default",
     "The test suite saves no layer; each option must survive separately.",
     [GT, PAD, POOL] + CONV, ("get_config", GT + ": get_config"))
prop("C15", "Promised output shapes are the shapes of the outputs",
     "compute_output_shape of a convolution, asked before or after building, returns the shape the call has, for every "
     "padding option, data format, subgroup and input size, also when the batch size is unknown.",
     "inputs configurations", "every conv class, padding option, data format; every size, kernel sizes and strides within bounds",
     "Tests that check shapes use one size; functional models trust the promise for all.",
     [GT, PAD] + CONV, ("compute_output_shape", GT + ": correct_output_shape"))
prop("C16", "Group pooling pools exactly the cosets",
     "Output entry h of a group pooling layer is the maximum or the plain average over the input entries of h's coset "
     "(h times each representative) and the configured window of grid points, each with equal weight, per channel and batch "
     "entry; without a subgroup each entry is pooled in space only. Pool size, strides and data format are those asked for. "
     "None of this depends on the sizes the layer was built with.",
     "inputs configurations", "every pooling class, group, subgroup, data format, pool size and stride; every size and value",
     "Tests compare shapes and a few random equivariance errors; a wrong coset can still be equivariant.",
     [POOL, GT, GROUP], ("coset indices", GT + ": build_pool"), ("pooling over the group", GT + ": subgroup_pooling"))
prop("C17", "Global group pooling aggregates every group entry and grid point once",
     "Global group pooling returns the maximum or the plain average over all group entries and grid points, for each batch "
     "entry and channel separately, in the axes Keras's layer would return, with a kept group axis of size 1 when keepdims "
     "is set, whatever sizes the layer was built or called with before.",
     "inputs configurations", "every global pooling class, data format, keepdims, group size; every grid size and value",
     "Tests use one size per class.",
     [POOL], ("pooling over the group", POOL + ": pool_group"), ("keepdims", POOL + ": restore_group_axis"))
prop("C18", "Groups and layers are found under their documented names",
     "Every group name (P1, P2, PMw, PMh, P2MM, P4, P4M; D4, D4h, O, Oh) gives the group of that name and every layer name "
     "(also P4MConv2D ... P1Conv2D, OhConv3D, OConv3D, D4hConv3D, D4Conv3D) a layer; a layer made with "
     "a group's name, with the group object, or through a group specific convolution name computes the same.",
     "configurations inputs", "every documented name; both data formats, lifting and group valued inputs, every size",
     "Most of the group specific names are never instantiated by a test.",
     [G + "__init__.py", L + "__init__.py"] + CONV[:2], ("group_dict", G + "__init__.py"), ("partial layers", CONV[0]))
prop("C19", "check_equivariance measures the equivariance error",
     "check_equivariance returns the largest absolute difference, over all acting elements and all elements of the output, "
     "between the layer of the transformed signal and the transformed layer output, for any layer, signal, group, acting, "
     "domain and target subgroup and axis placement; a signal or output not on the stated group is rejected.",
     "inputs programs configurations", "any layer whatsoever (uninterpreted), every group and subgroups, every size",
     "The tests use it as their oracle: an error that makes it return 0 too often makes every test pass.",
     [EQ, GROUP], ("comparison", EQ + ": check_equivariance"), ("acting on all at once", EQ + ": _act_on_batched_transform"))
prop("C20", "Axis utilities move exactly the elements they document",
     "Merging, splitting and moving axes and the tensor of flat indices place every element where documented, for every "
     "rank, axis pair (both counted from the front or both from the end) and size, including an unknown batch size; splitting undoes merging, and "
     "the shape functions agree with the tensor functions.",
     "inputs", "ranks up to 6, every pair of axes counted from the same end, every size",
     "Not tested directly; layers use a few axis combinations only.",
     [MAN], ("merge_axes", MAN), ("split_axes", MAN), ("move_axis_to_left_of", MAN))
prop("C21", "Layers compute with their current weights, which do not grow with the group",
     "Every call of a convolution uses the present values of its variables (assigned, trained or loaded after building), "
     "and gradients reach all of them; the variables are one kernel of size kernel x input entries x channels x filters "
     "and one bias per filter, whatever the acting group, and nothing decided in a call depends on values of the signal.",
     "histories inputs configurations", "every layer class, group, subgroup, data format; any assignment between calls",
     "Tests call fresh layers; a cached transformed kernel passes all of them.",
     [GT] + CONV, ("kernel transformed in every call", CONV[0] + ": call"), ("index tables only", GT + ": transform_kernel"))
prop("C22", "Layers and groups share nothing that a use changes",
     "Constructing, building and calling layers or acting with groups changes no group's tables, no argument of the caller "
     "and no other layer: any sequence of uses computes what each use alone would.",
     "histories configurations", "pairs of uses of the same groups with different sizes, subgroups and data formats",
     "Tests run each use on its own; only interleaved uses show shared state.",
     [GROUP, GT, PAD, POOL], ("per layer index tables", GT), ("group tables", GROUP))
prop("C23", "Inputs with unknown batch size are treated like any other",
     "When the batch size is not known, as while a model is being traced, every layer performs the same computation, raises "
     "the same errors and gives the same output axes as for a known batch size.",
     "inputs configurations", "every layer class, group, data format, lifting or not; every size",
     "One functional model with one layer class is tested.",
     [MAN, GT, GROUP, PAD], ("unknown sizes in reshapes", MAN + ": format_batch_dim"))
prop("C24", "Signals and layers keep their numeric types",
     "Acting on a signal of any type (boolean, integer or floating, half precision included) and rearranging its axes give "
     "its moved values in the same type. Layers given a dtype or mixed precision policy, as an argument or globally, "
     "convolve and pool in the policy's compute type, return that type and keep their weights in its variable type, "
     "otherwise computing what they compute in float32.",
     "inputs configurations", "every group, layer class and data format; every signal type and every dtype policy",
     "All tests run in float32, where every wrong or missing conversion is invisible.",
     [PAD, GT, GROUP, MAN], ("zeros padded to signals", PAD), ("weights moved to the group axis", GT), ("action", GROUP))
prop("C25", "Rounding errors stay within the tests' tolerance",
     "The numerical difference between transforming before and after a layer stays below a fixed tolerance for all inputs "
     "and weights in floating point.",
     "inputs", "all floating point inputs and weights", "Tests sample random values.",
     [GT] + CONV, ("floating point arithmetic of the backend", "outside of the repository"))
prop("C26", "All Keras backends give the same results",
     "TensorFlow, PyTorch and JAX give the same outputs for the same layers and weights.",
     "configurations inputs", "all backends, layers, inputs", "Only one backend is installed here.",
     [GT] + CONV, ("keras.ops", "outside of the repository"))
prop("C27", "Training keeps equivariance and converges like Keras's layers",
     "Fitting a model of group layers with any optimizer decreases its loss as well as plain layers would.",
     "histories inputs", "all data, optimizers and schedules", "One small fit is tested.",
     [GT] + CONV, ("Keras training loop", "outside of the repository"))
prop("C28", "One layer may be called from several threads at once",
     "Concurrent calls of one layer from several threads give the results of separate calls.",
     "schedules", "all interleavings of calls of one layer", "Tests are single threaded.",
     [MISC] + CONV, ("attributes swapped during the call", MISC))
prop("C29", "Options of the Keras layers keep their effect on the group layers",
     "Options that do not concern the group have the effect they have on the Keras layer a group layer is built on: the stored "
     "kernel and bias are created with the shape, initializer, regularizer and constraint Keras's layer would use for the "
     "signal with its group entries joined to the channels, the activity regularizer is applied once per call to the output, "
     "layers made or set not trainable have no trainable variables, names are as given and distinct by default, and options "
     "unknown to Keras are rejected. None of them changes what is computed.",
     "configurations inputs", "every layer class, lifting and group inputs, data formats; every such option alone and all together",
     "Tests give no layer any of these options; a dropped regularizer or constraint shows only when a model is trained.",
     CONV + [POOL, GT], ("options passed on to Keras's layer", CONV[0] + ": __init__"), ("base layer arguments", POOL))
prop("C30", "Where the group does nothing, the layers are Keras's layers",
     "With a group or subgroup of order one and padding 'same' or 'valid', a group convolution given the weights of Keras's layer "
     "computes exactly what that layer computes on the same signal, and pooling and global pooling are Keras's pooling, with all "
     "options (strides, dilation, output padding, bias, activation, pool size, keepdims) and both data formats. For any group the "
     "network operation runs with the options and on the signal (group entries joined to the channels) of Keras's layer.",
     "inputs configurations", "every layer class, group, data format and option; every size and value",
     "Tests compare group layers with themselves under symmetries, never with the Keras layers they stand for.",
     CONV + [POOL, GT, PAD], ("Keras's call on prepared input", CONV[0] + ": call"), ("inner pooling layer", POOL))

NOT_APPLICABLE = {
    "C25": "a bound on accumulated floating point rounding depends on the values and on the backend's summation order; no "
           "static argument about this repository's source bounds it (exact index identities are decided in C06/C10 instead)",
    "C26": "a statement about three numerical back ends that are not part of this repository; the repository only calls "
           "keras.ops, whose semantics the analysis has to assume",
    "C27": "convergence depends on data, optimizer and run time values; that gradients reach the weights and current "
           "weights are used is decided in C21",
    "C28": "the layers swap attributes during a call by design and do not offer thread safety (nor do Keras layers); there is "
           "no guarantee in the code to decide",
}

TECH = "abstract interpretation of the source (index-provenance domain, trace partitioning): "


def manifest():
    checks, na = [], []
    for p in PROPS:
        i = p["id"]
        if i in RULES:
            r = RULES[i]
            checks.append({
                "property": i,
                "quick_cmd": f"python3 check.py {i} quick",
                "thorough_cmd": f"python3 check.py {i} thorough",
                "technique": TECH + r["rule"],
                "level": r.get("level", "proof"),
                "level_note": r["note"],
            })
        else:
            na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "its check is not built yet")})
    return {"version": 1, "setup_cmd": "python3 -c 'import ast'", "checks": checks, "not_applicable": na,
            "notes": "Static analysis only: no check imports or runs the analysed package. See DESIGN.md."}


if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest(), f, indent=1)
        f.write("\n")
