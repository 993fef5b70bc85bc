"""Writing horizontal grid and mosaic files, and reading mosaics back."""
import numpy as np
from vlib import nc

STR = 255


def chars(s, n=STR):
    b = s.encode()[:n]
    return np.frombuffer(b + b'\0' * (n - len(b)), 'S1').reshape(n)


def text(a):
    """char array (rows) -> str or list of str"""
    a = np.asarray(a)
    if a.ndim <= 1:
        return b''.join(bytes(x) if x else b'\0' for x in a.ravel()).split(b'\0')[0].decode('latin1')
    return [text(r) for r in a]


def hgrid(path, x, y, tile='tile1', area=None, angle=False, fmt='NETCDF3_64BIT_OFFSET', extra=None, gc=False):
    f = nc.F(fmt)
    if gc:
        f.atts['great_circle_algorithm'] = 'TRUE'
    ny, nx = x.shape[0] - 1, x.shape[1] - 1
    for k, v in (('string', STR), ('nx', nx), ('ny', ny), ('nxp', nx + 1), ('nyp', ny + 1)):
        f.dims[k] = v
    f.vars['tile'] = nc.V('char', ['string'], {'standard_name': 'grid_tile_spec'}, chars(tile))
    for n, a in (('x', x), ('y', y)):
        f.vars[n] = nc.V('double', ['nyp', 'nxp'], {'standard_name': 'geographic_' + ('longitude' if n == 'x' else 'latitude'), 'units': 'degree_' + ('east' if n == 'x' else 'north')},
                         np.ascontiguousarray(a, float))
    if area is not None:
        f.vars['area'] = nc.V('double', ['ny', 'nx'], {'units': 'm2'}, np.ascontiguousarray(area, float))
    if angle is not False:
        f.vars['angle_dx'] = nc.V('double', ['nyp', 'nxp'], {'units': 'degrees_east'}, np.zeros_like(x) if angle is True else np.ascontiguousarray(angle, float))
    for k, v in (extra or {}).items():
        f.vars[k] = v
    nc.write(path, f)


def mosaic(path, name, files, tiles, contacts=(), dir='./'):
    """contacts: (t1, t2, 'i:i,j:j::i:i,j:j') with tile numbers from 0"""
    f = nc.F('NETCDF3_64BIT_OFFSET')
    f.dims['ntiles'] = len(files)
    if contacts:
        f.dims['ncontact'] = len(contacts)
    f.dims['string'] = STR
    f.vars['mosaic'] = nc.V('char', ['string'], {'standard_name': 'grid_mosaic_spec', 'children': 'gridtiles', 'contact_regions': 'contacts', 'grid_descriptor': ''}, chars(name))
    f.vars['gridlocation'] = nc.V('char', ['string'], {'standard_name': 'grid_file_location'}, chars(dir))
    f.vars['gridfiles'] = nc.V('char', ['ntiles', 'string'], {}, np.array([chars(x) for x in files]))
    f.vars['gridtiles'] = nc.V('char', ['ntiles', 'string'], {}, np.array([chars(x) for x in tiles]))
    if contacts:
        f.vars['contacts'] = nc.V('char', ['ncontact', 'string'], {'standard_name': 'grid_contact_spec', 'contact_type': 'boundary', 'alignment': 'true', 'contact_index': 'contact_index',
                                                                  'orientation': 'orient'}, np.array([chars('%s:%s::%s:%s' % (name, tiles[a], name, tiles[b])) for a, b, _ in contacts]))
        f.vars['contact_index'] = nc.V('char', ['ncontact', 'string'], {'standard_name': 'starting_ending_point_index_of_contact'}, np.array([chars(s) for _, _, s in contacts]))
    nc.write(path, f)
