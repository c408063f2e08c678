// Reads framed requests on stdin: uint32 mode, uint32 len, bytes. Runs the cameramodel reader on each, reports on stdout.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include "mrcal.h"

static void show(const mrcal_cameramodel_VOID_t* m)
{
    char name[1024];
    if(!mrcal_lensmodel_name(name, sizeof(name), &m->lensmodel)) { printf("OK ?\n"); return; }
    printf("OK %s %u %u", name, m->imagersize[0], m->imagersize[1]);
    for(int i=0; i<6; i++) printf(" %a", m->rt_cam_ref[i]);
    int N = mrcal_lensmodel_num_params(&m->lensmodel);
    for(int i=0; i<N; i++) printf(" %a", m->intrinsics[i]);
    printf("\n");
}

int main(int argc, char* argv[])
{
    const char* path = argv[1];
    uint32_t h[2];
    while(fread(h, sizeof(h), 1, stdin) == 1)
    {
        const uint32_t mode = h[0], len = h[1];
        // exact-size heap buffers: any overread is seen by the sanitizer
        char* s = malloc(len + (mode==1 || mode==4 ? 1 : 0) + (len==0));
        if(len && fread(s, len, 1, stdin) != 1) return 3;
        if(mode==1 || mode==4) s[len] = '\0';
        if(mode==2 || mode==5)
        {
            FILE* fp = fopen(path, "w");
            if(!fp || (len && fwrite(s, len, 1, fp) != 1)) return 3;
            fclose(fp);
        }
        if(mode <= 2 || mode == 6)
        {
            mrcal_cameramodel_VOID_t* m =
                (mode==0 || mode==6) ? (len==0 ? NULL : mrcal_read_cameramodel_string(s, len)) :
                mode==1 ? mrcal_read_cameramodel_string(s, 0) :
                mrcal_read_cameramodel_file(path);
            if(m == NULL) printf("FAIL\n");
            else if(mode == 6)
            {
                if(!mrcal_write_cameramodel_file(path, m)) printf("FAIL write\n");
                else show(m);
            }
            else show(m);
            if(m) { mrcal_free_cameramodel(&m); if(m) printf("NOT CLEARED\n"); }
        }
        else
        {
            // into: first with room for 0 intrinsics, then with what it asked for
            int Nmax = 0;
            mrcal_cameramodel_VOID_t* m = malloc(sizeof(*m));
            bool ok =
                mode==5 ? mrcal_read_cameramodel_file_into(m, &Nmax, path) :
                mode==4 ? mrcal_read_cameramodel_string_into(m, &Nmax, s, 0) :
                (len==0 ? false : mrcal_read_cameramodel_string_into(m, &Nmax, s, len));
            if(ok) printf("OK with no room\n");
            else if(Nmax <= 0) printf("FAIL\n");
            else if(Nmax > 10000000) printf("FAIL huge %d\n", Nmax);
            else
            {
                const int N = Nmax;
                free(m);
                m = malloc(sizeof(*m) + N*sizeof(double));
                ok =
                    mode==5 ? mrcal_read_cameramodel_file_into(m, &Nmax, path) :
                    mode==4 ? mrcal_read_cameramodel_string_into(m, &Nmax, s, 0) :
                    mrcal_read_cameramodel_string_into(m, &Nmax, s, len);
                if(!ok)
                    printf(Nmax > 0 ? "FAIL asked for more: %d\n" : "FAIL\n", Nmax);
                else
                {
                    if(mrcal_lensmodel_num_params(&m->lensmodel) != N) printf("OK wrong N\n");
                    else show(m);
                }
            }
            free(m);
        }
        fflush(stdout);
        free(s);
    }
    return 0;
}
