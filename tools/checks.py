"""What each check is built from (see run.py)."""
CHECKS = {}


def check(pid, **kw):
    CHECKS[pid] = kw


GRAV = ['src/gravity/harmonic_coeffs.cpp', 'src/gravity/icgemio_rddata.cpp',
        'src/gravity/icgemio_rdhead.cpp']
GLIB = ['src/gravity/*.cpp']
VLIB = ['var/icgem/src/*.cpp']
VAR = dict(name='var', lib=VLIB, includes=['var/icgem/src'], defines=['VARIANT_VAR'])

check('P01', harness=['harness/P01.cpp'], lib=GLIB, shims=['matvec'], variants=[{}, VAR])
check('P02', harness=['harness/P02.cpp'], lib=GLIB, shims=['matvec'], variants=[{}, VAR])
check('P03', harness=['harness/P03.cpp'], lib=GLIB, shims=['matvec'], variants=[{}, VAR])
check('P04', harness=['harness/P04.cpp'], lib=GLIB, shims=['matvec'], variants=[{}, VAR])
check('P05', harness=['harness/P05.cpp'], variants=[{}, dict(VAR, lib=[])])
check('P06', harness=['harness/P06.cpp'], lib=GLIB, shims=['matvec'], defines=['CHECK=6'],
      variants=[{}, dict(VAR, defines=['VARIANT_VAR', 'CHECK=6']), dict(name='debug', defines=['CHECK=6', 'DEBUG']),
                dict(VAR, name='vdebug', defines=['VARIANT_VAR', 'CHECK=6', 'DEBUG'])])
check('P07', harness=['harness/P06.cpp'], lib=GLIB, shims=['matvec'], defines=['CHECK=7'])
check('P08', harness=['harness/P08.cpp'], lib=GLIB, shims=['matvec'], variants=[{}, VAR])
ODE = dict(harness=['harness/P09.cpp'], lib=['var/ode_solvers/*.cpp', '!var/ode_solvers/ode_example.cpp'],
           includes=['var/ode_solvers'])
SGV = dict(name='src', lib=['src/integrators/*.cpp'], includes=['src/integrators'], shims=['intpar'])
check('P09', variants=[dict(defines=['CHECK=9']), dict(SGV, defines=['VARIANT_SRC', 'CHECK=9'])], **ODE)
check('P10', variants=[dict(defines=['CHECK=10']), dict(SGV, defines=['VARIANT_SRC', 'CHECK=10'])], **ODE)
check('P11', **dict(ODE, harness=['harness/P11.cpp']))
check('P39', harness=['harness/P39.cpp'], includes=['src', '.'])
check('P40', harness=['harness/P40.cpp'], lib=['src/web/*.cpp'], libs=['-lcurl', '-lpthread'])
check('P41', harness=['harness/P41.cpp'], lib=['src/var/*.cpp'], shims=['base'], libs=['-lyaml-cpp'])
check('P42', harness=['harness/P42.cpp'], includes=['.'])
ASTRO = dict(lib=['src/astrodynamics/*.cpp'], shims=['base', 'matvec'])
BRL = dict(name='branchless', defines=['BRANCHLESS'])
check('P12', harness=['harness/P12.cpp'], variants=[{}, BRL], **ASTRO)
check('P13', harness=['harness/P13.cpp'], variants=[{}, BRL], **ASTRO)
check('P14', harness=['harness/P14.cpp'], **ASTRO)
check('P15', harness=['harness/P15.cpp'], variants=[{}, BRL], **ASTRO)
check('P16', harness=['harness/P16.cpp'], **ASTRO)
check('P17', harness=['harness/P17.cpp'], **ASTRO)
RNX = dict(lib=['src/rinex/*.cpp', 'src/doris/*.cpp'], shims=['base', 'matvec'])
check('P21', harness=['harness/P21.cpp'], **RNX)
check('P22', harness=['harness/P22.cpp'], **RNX)
check('P23', harness=['harness/P23.cpp'], **RNX)
check('P27', harness=['harness/P27.cpp'], **RNX)
check('P35', harness=['harness/P35.cpp'], shims=['base', 'matvec'])
SYS = dict(lib=['src/doris/*.cpp', 'src/rinex/*.cpp', 'src/relativity/*.cpp'], shims=['base', 'matvec'])
check('P24', harness=['harness/P24.cpp'], **SYS)
check('P25', harness=['harness/P25.cpp'], variants=[{}, dict(name='O2', flags=['-O2'])], **SYS)
check('P26', harness=['harness/P26.cpp'], **SYS)
check('P36', harness=['harness/P36.cpp'], lib=['src/satellites/*.cpp'], shims=['base'], includes=['src', 'src/satellites'])
check('P37', harness=['harness/P37.cpp'], lib=['src/satellites/*.cpp'], shims=['base'], includes=['src', 'src/satellites'])
check('P38', harness=['harness/P38.cpp'], lib=['src/ids/*.cpp', 'src/beacon_tbl/*.cpp', 'src/doris/*.cpp'], shims=['base', 'matvec'])
check('P31', harness=['harness/P31.cpp'], lib=['src/iers/*.cpp'], shims=['base', 'matvec'], variants=[{}, dict(name='debug', defines=['DEBUG'])])
check('P32', harness=['harness/P32.cpp'], lib=['src/iers/*.cpp'], shims=['base', 'matvec'])
check('P18', harness=['harness/P18.cpp'], lib=['src/itrs2gcrs.cpp', 'src/iers/*.cpp'], shims=['base', 'matvec'],
      includes=['src', 'src/satellites'], defines=['NEW_EOP'])
check('P19', harness=['harness/P19.cpp'], lib=['src/planets/*.cpp'], shims=['base', 'matvec'])
check('P28', harness=['harness/P28.cpp'], lib=['src/var/celestrak_swdata.cpp', 'src/atmosphere/nrlmsise00_get_flux_data.cpp', 'src/atmosphere/nrlmsise00_params.cpp'],
      shims=['base', 'matvec'])
check('P29', harness=['harness/P29.cpp'], lib=['src/atmosphere/nrlmsise*.cpp', '!src/atmosphere/nrlmsise00_get_flux_data.cpp'], shims=['base', 'matvec'])
check('P30', harness=['harness/P30.cpp'], lib=['src/atmosphere/exponential_atmospheric_model.cpp'], shims=['base', 'matvec'])
check('P20', harness=['harness/P20.cpp'],
      lib=['src/itrs2gcrs.cpp', 'src/iers/*.cpp', 'src/sunmoon.cpp', 'src/variational_equations.cpp', 'src/planets/*.cpp', 'src/gravity/*.cpp', 'src/astrodynamics/*.cpp',
           'src/var/celestrak_swdata.cpp', 'src/atmosphere/nrlmsise*.cpp', 'src/satellites/*.cpp'],
      shims=['base', 'matvec'], includes=['src', 'src/satellites'], defines=['NEW_EOP'])
check('P33', harness=['harness/P33.cpp'], shims=['base', 'matvec'])
check('P34', harness=['harness/P34.cpp'], shims=['base', 'matvec'], variants=[{}, dict(name='debug', defines=['DEBUG'])])
check('P43', harness=['harness/P43.cpp'])
check('P44', harness=['harness/P44.cpp'])
check('P45', harness=['harness/P45.cpp'])
check('P46', harness=['harness/P46.cpp'])
