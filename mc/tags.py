"""Images with EXIF / XMP tags, RPCs and GCPs."""
from __future__ import annotations

import warnings

from mc import data

DJI = 'http://www.dji.com/drone-dji/1.0/'
SENSEFLY = 'http://ns.sensefly.com/Camera/1.0/'
PIX4D = 'http://pix4d.com/camera/1.0/'


def xmp_packet(props, style='attr'):
    """XMP packet with ``props`` {(namespace, name): value}, as attributes or elements."""
    nss = {}
    for ns, _ in props:
        nss.setdefault(ns, f'n{len(nss)}')
    decl = ' '.join(f'xmlns:{p}="{ns}"' for ns, p in nss.items())
    if style == 'attr':
        body = ' '.join(f'{nss[ns]}:{k}="{v}"' for (ns, k), v in props.items())
        desc = f'<rdf:Description rdf:about="" {decl} {body}/>'
    else:
        body = ''.join(f'<{nss[ns]}:{k}>{v}</{nss[ns]}:{k}>' for (ns, k), v in props.items())
        desc = f'<rdf:Description rdf:about="" {decl}>{body}</rdf:Description>'
    return ('<x:xmpmeta xmlns:x="adobe:ns:meta/"><rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#">'
            f'{desc}</rdf:RDF></x:xmpmeta>')


def dji_props(lla=(-33.1, 21.5, 120.0), rpy=(0.0, -90.0, 30.0), dewarp=None):
    p = {}
    if lla is not None:
        p.update({(DJI, 'GpsLatitude'): f'{lla[0]:+}', (DJI, 'GpsLongtitude'): f'{lla[1]:+}',
                  (DJI, 'AbsoluteAltitude'): f'{lla[2]:+}'})
    if rpy is not None:
        p.update({(DJI, 'GimbalRollDegree'): f'{rpy[0]:+}', (DJI, 'GimbalPitchDegree'): f'{rpy[1]:+}',
                  (DJI, 'GimbalYawDegree'): f'{rpy[2]:+}'})
    if dewarp is not None:
        p[(DJI, 'DewarpData')] = '2018-09-07;' + ','.join(str(v) for v in dewarp)
    return p


def write_tagged(path, size=(8, 6), exif=None, xmp=None, rpcs=None, gcps=None, bands=1, ns=None):
    """Write an image with EXIF tags (name without prefix -> string) and / or an XMP packet (string)."""
    import rasterio as rio

    arr = data.texture(bands, size[1], size[0])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with rio.open(path, 'w', driver='GTiff', width=size[0], height=size[1], count=bands, dtype='uint8') as ds:
            ds.write(arr)
            if exif:
                ds.update_tags(ns=ns, **{'EXIF_' + k: v for k, v in exif.items()})
            if xmp:
                ds.update_tags(ns='xml:XMP', **{'xml:XMP': xmp})
            if rpcs is not None:
                ds.rpcs = rpcs
            if gcps is not None:
                ds.gcps = gcps
    return str(path)
