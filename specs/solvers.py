"""What the solvers are told and what is reported of them"""
from typing import Any, Optional
from flixOpt.math_modeling import (CbcSolver, CplexSolver, GlpkSolver, GurobiSolver, HighsSolver, ModelingLanguage,
                                   PyomoModel, SolverLog)
import pyomo.environ as pyo
from pyomo.contrib import appsi

COMMON = dict(property='C21', raw=True, opaque=['SolverLog'], may_fail=False, ignore=['ext:gurobi_logtools.get_dataframe'],
              exceptions=False)

OBLIGATIONS = [
    dict(name='gurobi', impl='impl_gurobi', spec='spec_gurobi', anchor='GurobiSolver.solve', **COMMON),
    dict(name='cplex', impl='impl_cplex', spec='spec_cplex', anchor='CplexSolver.solve', **COMMON),
    dict(name='highs', impl='impl_highs', spec='spec_highs', anchor='HighsSolver.solve', **COMMON),
    dict(name='cbc', impl='impl_cbc', spec='spec_cbc', anchor='CbcSolver.solve', **COMMON),
    dict(name='glpk', impl='impl_glpk', spec='spec_glpk', anchor='GlpkSolver.solve', **COMMON),
]


def impl_gurobi(p: PyomoModel, gap: float, limit: int, logfile: str, console: bool):
    s = GurobiSolver(mip_gap=gap, time_limit_seconds=limit, logfile_name=logfile, solver_output_to_console=console)
    s.solve(p)
    return {'objective': s.objective, 'bound': s.best_bound, 'message': s.termination_message}


def spec_gurobi(p: PyomoModel, gap: float, limit: int, logfile: str, console: bool):
    r = pyo.SolverFactory('gurobi').solve(p.model, tee=console, keepfiles=True, logfile=logfile,
                                          options={'mipgap': gap, 'TimeLimit': limit})
    return {'objective': p.model.objective.expr(), 'bound': r.problem.lower_bound,
            'message': r.solver.termination_message}


def impl_cplex(p: PyomoModel, gap: float, limit: int, logfile: str, console: bool):
    s = CplexSolver(mip_gap=gap, time_limit_seconds=limit, logfile_name=logfile, solver_output_to_console=console)
    s.solve(p)
    return {'objective': s.objective, 'bound': s.best_bound}


def spec_cplex(p: PyomoModel, gap: float, limit: int, logfile: str, console: bool):
    r = pyo.SolverFactory('cplex').solve(p.model, tee=console, keepfiles=True, logfile=logfile,
                                         options={'mipgap': gap, 'timelimit': limit})
    return {'objective': p.model.objective.expr(), 'bound': r['Problem'][0]['Lower bound']}


def impl_cbc(p: PyomoModel, gap: float, limit: int, logfile: str, console: bool):
    s = CbcSolver(mip_gap=gap, time_limit_seconds=limit, logfile_name=logfile, solver_output_to_console=console)
    s.solve(p)
    return {'objective': s.objective, 'bound': s.best_bound}


def spec_cbc(p: PyomoModel, gap: float, limit: int, logfile: str, console: bool):
    r = pyo.SolverFactory('cbc').solve(p.model, tee=console, keepfiles=True, logfile=logfile,
                                       options={'ratio': gap, 'sec': limit})
    return {'objective': p.model.objective.expr(), 'bound': r['Problem'][0]['Lower bound']}


def impl_glpk(p: PyomoModel, gap: float, logfile: str, console: bool):
    s = GlpkSolver(mip_gap=gap, logfile_name=logfile, solver_output_to_console=console)
    s.solve(p)
    return {'objective': s.objective, 'bound': s.best_bound, 'message': s.termination_message}


def spec_glpk(p: PyomoModel, gap: float, logfile: str, console: bool):
    r = pyo.SolverFactory('glpk').solve(p.model, tee=console, keepfiles=True, logfile=logfile, options={'mipgap': gap})
    return {'objective': p.model.objective.expr(), 'bound': r['Problem'][0]['Lower bound'],
            'message': r['Solver'][0]['Status']}


def impl_highs(p: PyomoModel, gap: float, limit: int, logfile: Optional[str], console: bool, threads: int):
    s = HighsSolver(mip_gap=gap, time_limit_seconds=limit, logfile_name=logfile, solver_output_to_console=console,
                    threads=threads)
    s.solve(p)
    return {'objective': s.objective, 'bound': s.best_bound, 'message': s.termination_message}


def spec_highs(p: PyomoModel, gap: float, limit: int, logfile: Optional[str], console: bool, threads: int):
    h = appsi.solvers.Highs()
    h.highs_options = {'mip_rel_gap': gap, 'time_limit': limit, 'log_file': '' if logfile is None else str(logfile),
                       'threads': threads, 'parallel': 'on', 'presolve': 'on', 'output_flag': True}
    h.config.stream_solver = console
    r = h.solve(p.model)
    return {'objective': p.model.objective.expr(), 'bound': r.best_objective_bound,
            'message': r.termination_condition.name}
