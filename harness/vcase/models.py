import importlib
import os

case = importlib.import_module("vcase.cases." + os.environ["VCASE"])
