"""Backends besides the standard-library one: how to compile the library for them, and what stands in for the platform."""
import os
REPO_INC = os.environ.get("VERIF_REPO", "/repo") + "/include"
SIM = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sim")
DEFS = ["-DHSMBUILD_DEBUGGING", "-DHSM_ENABLE_SAFE_STRUCTURE", "-DHSM_LOGGING_MODE_OFF"]
NOTPOSIX = ["-U__unix__", "-U__unix", "-Uunix", "-U__linux__", "-U__linux", "-Ulinux", "-U__gnu_linux__"]
POSIX = ["-DPLATFORM_POSIX=1"]
ARD = NOTPOSIX + ["-DARDUINO=10819", "-DPLATFORM_ARDUINO=1", "-I" + SIM + "/stubs/arduino"]
FREERTOS = ["-DPLATFORM_FREERTOS=1", "-I" + SIM + "/stubs/freertos", "-I" + REPO_INC + "/hsmcpp/os/freertos"]
GLIB = ["-I/usr/include/glib-2.0", "-I/usr/lib/x86_64-linux-gnu/glib-2.0/include"]
GLIBMM = GLIB + ["-I/usr/include/glibmm-2.4", "-I/usr/lib/x86_64-linux-gnu/glibmm-2.4/include", "-I/usr/include/sigc++-2.0",
                 "-I/usr/lib/x86_64-linux-gnu/sigc++-2.0/include"]
QT = ["-I/usr/include/x86_64-linux-gnu/qt5", "-I/usr/include/x86_64-linux-gnu/qt5/QtCore", "-DQT_CORE_LIB"]

VARIANTS = {
    "arduino": dict(name="Arduino", disp=["Arduino"], os=["arduino", "common"], lib=DEFS + ["-DHSM_DISABLE_TRACES"] + ARD,
                    har=POSIX, behar=ARD, backend="backend_arduino.cpp", libs=[]),
    "freertos": dict(name="FreeRTOS", disp=["FreeRTOS"], os=["freertos", "common"], lib=DEFS + FREERTOS, har=FREERTOS, backend="backend_freertos.cpp", libs=[], libsim=True),
    "glib": dict(name="GLib", disp=["GLib"], os=["stl", "common", "posix"], lib=DEFS + POSIX + ["-DHSM_BUILD_HSMBUILD_DISPATCHER_GLIB"], inc=GLIB,
                 har=POSIX, backend="backend_glib.cpp", libs=["-lglib-2.0"]),
    "glibmm": dict(name="GLibmm", disp=["GLibmm"], os=["stl", "common", "posix"], lib=DEFS + POSIX + ["-DHSM_BUILD_HSMBUILD_DISPATCHER_GLIBMM"],
                   inc=GLIBMM, har=POSIX, backend="backend_glibmm.cpp", libs=["-lglibmm-2.4", "-lsigc-2.0", "-lgobject-2.0", "-lglib-2.0"]),
    "qt": dict(name="Qt", disp=["Qt"], os=["stl", "common", "posix"], lib=DEFS + POSIX + ["-DHSM_BUILD_HSMBUILD_DISPATCHER_QT", "-fPIC"], inc=QT,
               har=POSIX + ["-fPIC"], backend="backend_qt.cpp", libs=["-lQt5Core"], moc=["/include/hsmcpp/HsmEventDispatcherQt.hpp"], moc_tool="moc"),
}
