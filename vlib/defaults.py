"""Leaves out arguments that have the documented default value.

The judges pass most arguments explicitly, which would hide a changed default. The public
functions are wrapped: every second call (counted from the start of the case) drops the
trailing and keyword arguments that are equal to the default of the documented signature,
which is listed here.
"""

import functools
import importlib

# module: {function: (kind, parameters, documented defaults)}
TABLE = {
    "basis": {
        "LatticeBasis.chain": ('class', 'a',
            {'a': 1.0}),
        "LatticeBasis.square": ('class', 'a',
            {'a': 1.0}),
        "LatticeBasis.rectangular": ('class', 'a1 a2',
            {'a1': 1.0, 'a2': 1.0}),
        "LatticeBasis.oblique": ('class', 'alpha a1 a2',
            {'a1': 1.0, 'a2': 1.0}),
        "LatticeBasis.hexagonal": ('class', 'a',
            {'a': 1.0}),
        "LatticeBasis.hexagonal3d": ('class', 'a az',
            {'a': 1.0, 'az': 1.0}),
        "LatticeBasis.sc": ('class', 'a',
            {'a': 1.0}),
        "LatticeBasis.fcc": ('class', 'a',
            {'a': 1.0}),
        "LatticeBasis.bcc": ('class', 'a',
            {'a': 1.0}),
        "LatticeBasis.hypercubic": ('class', 'dim a',
            {'a': 1.0}),
        "LatticeBasis.translate": ('method', 'nvec r',
            {'r': 0.0}),
        "LatticeBasis.is_reciprocal": ('method', 'vecs tol',
            {}),
        "LatticeBasis.reciprocal_vectors": ('method', 'tol check',
            {'check': False}),
        "LatticeBasis.reciprocal_lattice": ('method', 'min_negative',
            {'min_negative': False}),
        "LatticeBasis.get_neighbor_cells": ('method', 'distidx include_origin comparison',
            {'distidx': 0, 'include_origin': True}),
        "LatticeBasis.brillouin_zone": ('method', 'min_negative',
            {'min_negative': False}),
        "LatticeBasis.plot_basis": ('method', 'lw ls margins grid show_cell show_vecs adjustable ax show',
            {'lw': None, 'ls': '--', 'margins': 0.1, 'grid': False, 'show_cell': True, 'show_vecs': True, 'adjustable': 'box', 'ax': None, 'show': False}),
    },
    "spatial": {
        "distance": ('function', 'r1 r2 decimals',
            {'decimals': None}),
        "distances": ('function', 'r1 r2 decimals',
            {'decimals': None}),
        "vindices": ('function', 'limits sort_axis dtype',
            {'sort_axis': 0, 'dtype': None}),
        "vrange": ('function', 'start',
            {'start': None}),
        "compute_vectors": ('function', 'a b c alpha beta gamma decimals',
            {'b': None, 'c': None, 'alpha': None, 'beta': None, 'gamma': None, 'decimals': 0}),
        "KDTree.query": ('method', 'x num_jobs decimals include_zero compact',
            {'x': None, 'num_jobs': 1, 'decimals': None, 'include_zero': False, 'compact': True}),
        "VoronoiTree.query": ('method', 'x k eps',
            {'k': 1, 'eps': 0}),
        "VoronoiTree.draw": ('method', 'ax color size lw alpha point_color point_size draw_data points draw fill',
            {'ax': None, 'color': 'C0', 'size': 3, 'lw': 1, 'alpha': 0.15, 'point_color': 'k', 'point_size': 3, 'draw_data': True, 'points': True, 'draw': True, 'fill': True}),
        "WignerSeitzCell.arange": ('method', 'steps offset',
            {'offset': 0.0}),
        "WignerSeitzCell.linspace": ('method', 'nums offset endpoint',
            {'offset': 0.0, 'endpoint': False}),
        "WignerSeitzCell.meshgrid": ('method', 'nums steps offset check endpoint',
            {'nums': None, 'steps': None, 'offset': 0.0, 'check': True, 'endpoint': False}),
        "rot": ('function', 'thetax thetay thetaz',
            {'thetax': 0.0, 'thetay': 0.0, 'thetaz': 0.0}),
        "rotate2d": ('function', 'a theta degree',
            {'degree': True}),
        "rotate3d": ('function', 'a thetax thetay thetaz degree',
            {'thetax': 0.0, 'thetay': 0.0, 'thetaz': 0.0, 'degree': True}),
    },
    "utils": {
        "create_lookup_table": ('function', 'array dtype',
            {}),
        "min_dtype": ('function', 'a signed',
            {'signed': True}),
        "chain": ('function', 'items cycle',
            {'cycle': False}),
        "frmt_num": ('function', 'num dec unit div',
            {'dec': 1, 'unit': '', 'div': 1000.0}),
        "frmt_bytes": ('function', 'num dec',
            {'dec': 1}),
        "frmt_time": ('function', 'seconds short width',
            {'short': False, 'width': 0}),
    },
    "atom": {
        "Atom.get": ('method', 'key default',
            {'default': None}),
    },
    "shape": {
        "AbstractShape.contains": ('method', 'points tol',
            {'tol': 0.0}),
        "AbstractShape.plot": ('method', 'ax color lw alpha',
            {'color': 'k', 'lw': 0.0, 'alpha': 0.2}),
        "Shape.contains": ('method', 'points tol',
            {'tol': 0.0}),
        "Shape.plot": ('method', 'ax color lw alpha',
            {'color': 'k', 'lw': 0.0, 'alpha': 0.2}),
        "Circle.contains": ('method', 'points tol',
            {'tol': 0.0}),
        "Circle.plot": ('method', 'ax color lw alpha',
            {'color': 'k', 'lw': 0.0, 'alpha': 0.2}),
        "Donut.contains": ('method', 'points tol',
            {'tol': 1e-10}),
        "Donut.plot": ('method', 'ax color lw alpha',
            {'color': 'k', 'lw': 0.0, 'alpha': 0.2}),
        "ConvexHull.contains": ('method', 'points tol',
            {'tol': 1e-10}),
        "ConvexHull.plot": ('method', 'ax color lw alpha',
            {'color': 'k', 'lw': 0.0, 'alpha': 0.2}),
    },
    "structure": {
        "LatticeStructure.add_atom": ('method', 'pos atom primitive neighbors',
            {'pos': None, 'atom': None, 'primitive': False, 'neighbors': 0}),
        "LatticeStructure.add_connection": ('method', 'atom1 atom2 num_distances analyze',
            {'num_distances': 1, 'analyze': False}),
        "LatticeStructure.add_connections": ('method', 'num_distances analyze',
            {'num_distances': 1, 'analyze': True}),
        "LatticeStructure.get_position": ('method', 'nvec alpha',
            {'nvec': None, 'alpha': 0}),
        "LatticeStructure.get_neighbors": ('method', 'nvec alpha distidx',
            {'nvec': None, 'alpha': 0, 'distidx': 0}),
        "LatticeStructure.get_neighbor_positions": ('method', 'nvec alpha distidx',
            {'nvec': None, 'alpha': 0, 'distidx': 0}),
        "LatticeStructure.get_neighbor_vectors": ('method', 'alpha distidx include_zero',
            {'alpha': 0, 'distidx': 0, 'include_zero': False}),
        "LatticeStructure.fourier_weights": ('method', 'k alpha distidx',
            {'alpha': 0, 'distidx': 0}),
        "LatticeStructure.get_base_atom_dict": ('method', 'atleast2d',
            {'atleast2d': True}),
        "LatticeStructure.check_points": ('method', 'points shape relative pos tol',
            {'relative': False, 'pos': None, 'tol': 0.001}),
        "LatticeStructure.build_translation_vectors": ('method', 'shape primitive pos check dtype oversample',
            {'primitive': False, 'pos': None, 'check': True, 'dtype': None, 'oversample': 0.0}),
        "LatticeStructure.build_indices": ('method', 'shape primitive pos check callback dtype return_pos',
            {'primitive': False, 'pos': None, 'check': True, 'callback': None, 'dtype': None, 'return_pos': False}),
        "LatticeStructure.compute_neighbors": ('method', 'indices positions num_jobs',
            {'num_jobs': 1}),
        "LatticeStructure.plot_cell": ('method', 'lw alpha cell_lw cell_ls margins legend grid show_cell show_vecs show_neighbors con_colors adjustable ax show',
            {'lw': None, 'alpha': 0.5, 'cell_lw': None, 'cell_ls': '--', 'margins': 0.1, 'legend': None, 'grid': False, 'show_cell': True, 'show_vecs': True, 'show_neighbors': True, 'con_colors': None, 'adjustable': 'box', 'ax': None, 'show': False}),
    },
    "lattice": {
        "Lattice.superindex_from_pos": ('method', 'pos atol',
            {'atol': 0.0001}),
        "Lattice.neighbors": ('method', 'site distidx unique',
            {'distidx': None, 'unique': False}),
        "Lattice.nearest_neighbors": ('method', 'idx unique',
            {'unique': False}),
        "Lattice.iter_neighbors": ('method', 'site unique',
            {'unique': False}),
        "Lattice.build": ('method', 'shape primitive pos check min_neighbors num_jobs periodic callback dtype',
            {'primitive': False, 'pos': None, 'check': True, 'min_neighbors': None, 'num_jobs': -1, 'periodic': None, 'callback': None, 'dtype': None}),
        "Lattice.periodic_translation_vectors": ('method', 'axes primitive',
            {'primitive': False}),
        "Lattice.kdtree": ('method', 'positions eps boxsize',
            {'positions': None, 'eps': 0.0, 'boxsize': None}),
        "Lattice.set_periodic": ('method', 'axis primitive',
            {'axis': None, 'primitive': None}),
        "Lattice.minimum_distances": ('method', 'site primitive',
            {'primitive': None}),
        "Lattice.append": ('method', 'latt ax side sort_ax sort_reverse primitive',
            {'ax': 0, 'side': 1, 'sort_ax': None, 'sort_reverse': False, 'primitive': None}),
        "Lattice.extend": ('method', 'size ax side num_jobs sort_ax sort_reverse',
            {'ax': 0, 'side': 1, 'num_jobs': 1, 'sort_ax': None, 'sort_reverse': False}),
        "Lattice.repeat": ('method', 'num ax side sort_ax sort_reverse',
            {'num': 1, 'ax': 0, 'side': 1, 'sort_ax': None, 'sort_reverse': False}),
        "Lattice.neighbor_pairs": ('method', 'unique',
            {'unique': False}),
        "Lattice.plot": ('method', 'lw margins legend grid pscale show_periodic show_indices index_offset con_colors adjustable ax show',
            {'lw': None, 'margins': 0.1, 'legend': None, 'grid': False, 'pscale': 0.5, 'show_periodic': True, 'show_indices': False, 'index_offset': 0.1, 'con_colors': None, 'adjustable': 'box', 'ax': None, 'show': False}),
    },
    "data": {
        "DataMap.onsite": ('method', 'alpha',
            {'alpha': None}),
        "DataMap.hopping": ('method', 'distidx',
            {'distidx': None}),
        "DataMap.zeros": ('method', 'norb dtype',
            {'norb': None, 'dtype': None}),
        "DataMap.build_csr": ('method', 'data shape dtype',
            {'shape': None, 'dtype': None}),
        "DataMap.build_bsr": ('method', 'data shape dtype',
            {'shape': None, 'dtype': None}),
        "LatticeData.neighbor_mask": ('method', 'site distidx periodic unique',
            {'distidx': None, 'periodic': None, 'unique': False}),
        "LatticeData.sort": ('method', 'ax indices reverse',
            {'ax': None, 'indices': None, 'reverse': False}),
        "LatticeData.get_neighbors": ('method', 'site distidx periodic unique',
            {'distidx': None, 'periodic': None, 'unique': False}),
        "LatticeData.iter_neighbors": ('method', 'site unique',
            {'unique': False}),
        "LatticeData.site_mask": ('method', 'mins maxs invert',
            {'mins': None, 'maxs': None, 'invert': False}),
        "LatticeData.find_sites": ('method', 'mins maxs invert',
            {'mins': None, 'maxs': None, 'invert': False}),
    },
    "disptools": {
        "bandpath_subplots": ('function', 'ticks labels xlabel ylabel grid',
            {'xlabel': '$k$', 'ylabel': '$E(k)$', 'grid': 'both'}),
        "plot_dispersion": ('function', 'disp labels xlabel ylabel grid color alpha lw scales fill ax show',
            {'xlabel': '$k$', 'ylabel': '$E(k)$', 'grid': 'both', 'color': None, 'alpha': 0.2, 'lw': 1.0, 'scales': None, 'fill': False, 'ax': None, 'show': True}),
        "disp_dos_subplots": ('function', 'ticks labels xlabel ylabel doslabel wratio grid',
            {'xlabel': '$k$', 'ylabel': '$E(k)$', 'doslabel': '$n(E)$', 'grid': 'both'}),
        "plot_disp_dos": ('function', 'disp dos_data labels xlabel ylabel doslabel wratio grid color fill disp_alpha dos_alpha lw scales axs show',
            {'xlabel': 'k', 'ylabel': 'E(k)', 'doslabel': 'n(E)', 'grid': 'both', 'color': None, 'fill': True, 'disp_alpha': 0.2, 'dos_alpha': 0.2, 'lw': 1.0, 'scales': None, 'axs': None, 'show': True}),
        "plot_bands": ('function', 'kgrid bands k_label disp_label grid contour_grid bz pi_ticks ax show',
            {'k_label': 'k', 'disp_label': 'E(k)', 'grid': 'both', 'contour_grid': False, 'bz': None, 'pi_ticks': True, 'ax': None, 'show': True}),
        "DispersionPath.chain_path": ('class', 'a',
            {'a': 1.0}),
        "DispersionPath.square_path": ('class', 'a',
            {'a': 1.0}),
        "DispersionPath.cubic_path": ('class', 'a',
            {'a': 1.0}),
        "DispersionPath.add": ('method', 'point name',
            {'name': ''}),
        "DispersionPath.add_points": ('method', 'points names',
            {'names': None}),
        "DispersionPath.x": ('method', 'a',
            {'a': 1.0}),
        "DispersionPath.m": ('method', 'a',
            {'a': 1.0}),
        "DispersionPath.r": ('method', 'a',
            {'a': 1.0}),
        "DispersionPath.build": ('method', 'n_sect',
            {'n_sect': 1000}),
        "DispersionPath.draw": ('method', 'ax color lw',
            {'color': None, 'lw': 1.0}),
        "DispersionPath.subplots": ('method', 'xlabel ylabel grid',
            {'xlabel': 'k', 'ylabel': 'E(k)', 'grid': 'both'}),
        "DispersionPath.plot_dispersion": ('method', 'disp ax show',
            {'ax': None, 'show': True}),
        "DispersionPath.plot_disp_dos": ('method', 'disp dos axs show',
            {'axs': None, 'show': True}),
    },
    "plotting": {
        "set_color_cycler": ('function', 'color_cycle',
            {}),
        "use_mplstyle": ('function', 'style color_cycle',
            {'color_cycle': None}),
        "set_equal_aspect": ('function', 'ax adjustable',
            {'ax': None, 'adjustable': 'box'}),
        "hide_box": ('function', 'ax axis',
            {'axis': False}),
        "subplot": ('function', 'dim adjustable ax',
            {'adjustable': 'box', 'ax': None}),
        "draw_vectors": ('function', 'ax vectors pos',
            {'pos': None}),
        "draw_arrows": ('function', 'ax vectors pos',
            {'pos': None}),
        "draw_points": ('function', 'ax points size',
            {'size': 10}),
        "text": ('function', 'ax strings positions offset',
            {'offset': None}),
        "draw_sites": ('function', 'ax points radius',
            {'radius': 0.2}),
        "connection_color_array": ('function', 'num_base default colors',
            {'default': 'k', 'colors': None}),
        "draw_indices": ('function', 'ax positions offset',
            {'offset': 0.05}),
        "draw_unit_cell": ('function', 'ax vectors outlines',
            {'outlines': True}),
        "interpolate_to_grid": ('function', 'positions values num offset method fill_value',
            {'method': 'linear'}),
    },
    "__init__": {
        "simple_chain": ('function', 'a atom neighbors',
            {'a': 1.0, 'atom': None, 'neighbors': 1}),
        "alternating_chain": ('function', 'a atom1 atom2 x0 neighbors',
            {'a': 1.0, 'atom1': None, 'atom2': None, 'x0': 0.0, 'neighbors': 1}),
        "simple_square": ('function', 'a atom neighbors',
            {'a': 1.0, 'atom': None, 'neighbors': 1}),
        "simple_rectangular": ('function', 'a1 a2 atom neighbors',
            {'a1': 1.5, 'a2': 1.0, 'atom': None, 'neighbors': 2}),
        "simple_hexagonal": ('function', 'a atom neighbors',
            {'a': 1.0, 'atom': None, 'neighbors': 1}),
        "honeycomb": ('function', 'a atom',
            {'a': 1.0, 'atom': None}),
        "graphene": ('function', 'a',
            {'a': 1.0}),
        "simple_cubic": ('function', 'a atom neighbors',
            {'a': 1.0, 'atom': None, 'neighbors': 1}),
        "nacl_structure": ('function', 'a atom1 atom2 neighbors',
            {'a': 1.0, 'atom1': 'Na', 'atom2': 'Cl', 'neighbors': 1}),
        "finite_hypercubic": ('function', 's a atom neighbors primitive periodic',
            {'a': 1.0, 'atom': None, 'neighbors': 1, 'primitive': True, 'periodic': None}),
    },
}


class Counter:
    calls = 0


def reset():
    Counter.calls = 0


def equal(a, b):
    return type(a) is type(b) and a == b


def wrap(func, names, defaults, offset):
    @functools.wraps(func)
    def wrapper(*args, **kwargs):
        Counter.calls += 1
        if Counter.calls % 2:
            args = list(args)
            while len(args) > offset:
                pos = len(args) - offset - 1
                name = names[pos] if pos < len(names) else None
                if name not in defaults or not equal(args[-1], defaults[name]):
                    break
                args.pop()
            kwargs = {
                k: v for k, v in kwargs.items()
                if k not in defaults or not equal(v, defaults[k])
            }
        return func(*args, **kwargs)

    return wrapper


def install():
    for mod, funcs in TABLE.items():
        module = importlib.import_module("lattpy" if mod == "__init__" else f"lattpy.{mod}")
        for qual, (kind, names, defaults) in funcs.items():
            names = names.split()
            owner, _, name = qual.rpartition(".")
            target = getattr(module, owner, None) if owner else module
            if target is None or name not in vars(target):
                continue  # moved: the call still works, only without dropping arguments
            func = vars(target)[name]
            if kind == "method" or kind == "function":
                offset = 1 if kind == "method" else 0
                if not callable(func):
                    continue
                new = wrap(func, names, defaults, offset)
            elif kind == "class" and isinstance(func, classmethod):
                new = classmethod(wrap(func.__func__, names, defaults, 1))
            elif kind == "static" and isinstance(func, staticmethod):
                new = staticmethod(wrap(func.__func__, names, defaults, 0))
            else:
                continue
            setattr(target, name, new)
            if not owner and mod != "__init__":
                package = importlib.import_module("lattpy")
                if vars(package).get(name) is func:
                    setattr(package, name, new)
