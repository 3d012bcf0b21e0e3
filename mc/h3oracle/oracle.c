// Reference values from the H3 library itself. Modes:
//  tables            dumps H3's icosahedron constants
//  hex2d             stdin lines "lat lng res" (hex floats): face sqd x y i j k
//  ijk               stdin lines "i j k": normalised triple
//  plane             stdin lines "x y": ijk of the hexagon
#include "h3_faceijk.c"
#include <stdio.h>
int main(int argc, char **argv) {
    if (!strcmp(argv[1], "tables")) {
        for (int f = 0; f < NUM_ICOSA_FACES; f++)
            printf("%a %a %a %a %a %a\n", faceCenterGeo[f].lat, faceCenterGeo[f].lng, faceCenterPoint[f].x,
                   faceCenterPoint[f].y, faceCenterPoint[f].z, faceAxesAzRadsCII[f][0]);
        printf("%a %a %a %a\n", (double)M_AP7_ROT_RADS, (double)RES0_U_GNOMONIC, (double)M_SQRT7, (double)M_SIN60);
    } else if (!strcmp(argv[1], "hex2d")) {
        double lat, lng;
        int res;
        while (scanf("%la %la %d", &lat, &lng, &res) == 3) {
            LatLng g = {.lat = lat, .lng = lng};
            int face;
            double sqd;
            Vec2d v;
            FaceIJK h;
            _geoToClosestFace(&g, &face, &sqd);
            _geoToHex2d(&g, res, &face, &v);
            _geoToFaceIjk(&g, res, &h);
            printf("%d %a %a %a %d %d %d\n", face, sqd, v.x, v.y, h.coord.i, h.coord.j, h.coord.k);
        }
    } else if (!strcmp(argv[1], "ijk")) {
        CoordIJK c;
        while (scanf("%d %d %d", &c.i, &c.j, &c.k) == 3) {
            _ijkNormalize(&c);
            printf("%d %d %d\n", c.i, c.j, c.k);
        }
    } else if (!strcmp(argv[1], "plane")) {
        Vec2d v;
        CoordIJK c;
        while (scanf("%la %la", &v.x, &v.y) == 2) {
            _hex2dToCoordIJK(&v, &c);
            printf("%d %d %d\n", c.i, c.j, c.k);
        }
    }
    return 0;
}
