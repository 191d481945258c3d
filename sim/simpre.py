"""Imports everything the code under test uses once, before cases are forked off, and puts the
process-level seams in place (locks created by the repository)."""
import sys, os

REPO = '/repo'


def from_repo(depth=2):
    f = sys._getframe(depth)
    return f.f_code.co_filename.startswith(REPO + '/')


def load():
    import simthread
    simthread.patch_locks()
    import argparse, csv, json, codecs, re, random, hashlib, copy, shutil, tempfile, subprocess, datetime
    import multiprocessing, multiprocessing.pool, concurrent.futures, concurrent.futures.process, functools, itertools, collections
    import urllib.request, urllib.error, traceback, threading, io, unicodedata, encodings.idna
    import xml.etree.ElementTree, xml.etree.ElementPath, xml.parsers.expat
    import requests, cssutils, langtag, icu
    import lxml.etree
    import sldr, sldr.ldml, sldr.ldml_merge, sldr.py3xmlparser, sldr.UnicodeSets, sldr.ducet, sldr.collation
    import sldr.ldml_exemplars, sldr.langtags_full, sldr.iana, sldr.utils, sldr.hunspell
    assert os.path.realpath(sldr.__file__).startswith(REPO + '/'), sldr.__file__
    import gen, model, simtool, simpool
    cssutils.log.setLevel(50)
