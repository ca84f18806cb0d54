"""Which analyses decide which property."""
import os
from .prog import VERIF
from . import rules

CHECKS = {}


def spec(pid, file, prefix=None, **opts):
    CHECKS.setdefault(pid, []).append({'spec': file, 'prefix': prefix or pid, 'opts': opts})


def rule(pid, f):
    CHECKS.setdefault(pid, []).append({'rule': f})


spec('C01', 'scan.cpp')
spec('C02', 'scan.cpp')
for p in ('C03', 'C04', 'C05', 'C06'):
    spec(p, 'ndt.cpp')
LIKELIHOOD = {'ndt_2d::NDT::likelihood(const Eigen::Matrix<double, 2, 1, 0, 2, 1> &)'}
for p in ('C07', 'C08', 'C09', 'C10'):
    spec(p, 'matcher.cpp', pure=LIKELIHOOD)

for p in ('C11', 'C12', 'C13'):
    spec(p, 'solver.cpp')

spec('C47', 'convert.cpp')

spec('C14', 'filter.cpp')
spec('C15', 'filter.cpp')
for p in ('C16', 'C17', 'C18'):
    spec(p, 'filter.cpp', opaque={'ndt_2d::KDTree'}, constargs={'ndt_2d::KDTree'})
for p in ('C19', 'C20', 'C21'):
    spec(p, 'grid.cpp')
for p in ('C22', 'C24'):
    spec(p, 'graph.cpp')
spec('C23', 'graph.cpp', pure={'ndt_2d::Scan::getBarycenterPose()'})

MAPPER = {
    'ndt_2d::Graph::Graph/2': 'load_graph_', 'ndt_2d::Graph::save': 'save_graph_', 'ndt_2d::Graph::findNearest': 'find_nearest_',
    'ndt_2d::ScanMatcher::addScans': 'add_scans_', 'ndt_2d::ScanMatcher::reset': 'reset_', 'ndt_2d::ScanMatcher::scoreScan': 'score_scan_',
    'ndt_2d::ScanMatcher::matchScan': 'match_scan_', 'ndt_2d::ScanMatcher::initialize': 'initialize_',
    'ndt_2d::ParticleFilter::update': 'update_', 'ndt_2d::ParticleFilter::measure': 'measure_', 'ndt_2d::ParticleFilter::resample': 'resample_',
    'ndt_2d::ParticleFilter::init': 'init_', 'ndt_2d::ParticleFilter::getMean': 'mean_', 'ndt_2d::ParticleFilter::getMsg': 'filter_msg_',
    'tf2_ros::Buffer::lookupTransform': 'lookup_', 'tf2_ros::Buffer::transform': 'transform_', 'tf2::getYaw': 'yaw_',
    'ndt_2d::CeresSolver::optimize': 'optimize_', 'ndt_2d::OccupancyGrid::getMsg': 'grid_msg_', 'ndt_2d::Graph::getMsg': 'graph_msg_',
    'tf2::eigenToTransform': 'to_transform_', 'pluginlib::ClassLoader::createSharedInstance': 'create_',
    'std::this_thread::sleep_for': 'sleep_',
}
for p in ('C26', 'C28', 'C29', 'C30', 'C31', 'C32', 'C33', 'C34', 'C35', 'C36', 'C37', 'C38', 'C39', 'C40', 'C41', 'C42', 'C44', 'C45', 'C48', 'C49'):
    spec(p, 'mapper.cpp', replace=MAPPER)

spec('C41', 'matcher.cpp', pure=LIKELIHOOD)

rule('C13', rules.c13)
rule('C25', rules.c25)
rule('C26', rules.c26)
rule('C27', rules.c27)
rule('C29', rules.c29)
rule('C32', rules.c32)
rule('C40', rules.c40)
rule('C41', rules.c41)
rule('C42', rules.c42)
rule('C43', rules.c43)
rule('C46', rules.c46)

VG = ('Value graphs (gated SSA with loop closed forms) of the repository functions called by each driver of specs/ are built from the type-checked '
      'syntax tree and compared with those of the reference model; equal normal forms discharge an obligation for every input.')


def level(pid):
    return 'proof' if any('spec' in s for s in CHECKS[pid]) else 'other'


def explain(pid):
    out = []
    if any('spec' in s for s in CHECKS[pid]):
        out.append(VG)
    for s in CHECKS[pid]:
        if 'rule' in s:
            out.append(' '.join((s['rule'].__doc__ or '').split()))
    return ' '.join(out)


def assumptions(pid):
    out = []
    if any('spec' in s for s in CHECKS[pid]):
        out += ['real arithmetic: rounding, overflow and (unless stated) NaN are not modelled',
                'different pointers held in inputs refer to different objects unless the code compares them']
    return out


def known_findings(pid):
    out = set()
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                out.add(l.split(' ', 2)[2].strip())
    return out


def note(pid):
    s = ('Each driver of the reference model is evaluated together with the repository code it calls; the obligation is the equality of two value graphs for all inputs. '
         if any('spec' in x for x in CHECKS[pid]) else '')
    r = 'The rules inspect every function of the analysed sources. ' if any('rule' in x for x in CHECKS[pid]) else ''
    return (s + r + 'Assumes: ' + '; '.join(assumptions(pid) or ['the type-checked syntax tree is that of the compiled code']) +
            '. Trusts the clang front end, the analyser in /verif and the ROS stand-in headers. What cannot be decided is recorded as undecided in the evidence and raises no alarm.')
