"""property id -> check"""
import part, carto, graphc, groupc, missc, recoc, modelc, progc, layoutc, toolc, legacyc, frontc, intakec
CHECKS = {}
for _m in (part, carto, graphc, groupc, missc, recoc, modelc, progc, layoutc, toolc, legacyc, frontc, intakec):
    CHECKS.update(_m.CHECKS)


def _both(*fs):
    def run(ctx):
        for f in fs:
            f(ctx)
    return run


CHECKS['C08'] = _both(CHECKS['C08'], groupc.roles)
CHECKS['C12'] = _both(CHECKS['C12'], groupc.clusters)

# property -> (specification modules, extra note)
TECH = {
 'C01': ('Partition/PartitionMC/PartitionTrace', ''),
 'C02': ('Partition/PartitionMC/PartitionTrace', 'Values are compared to 4e-6.'),
 'C03': ('Partition/PartitionMC/PartitionTrace', ''),
 'C04': ('Partition/AnnealMC/PartitionTrace', 'Acceptance is observed at each random draw; the local-optimum part uses networks with irregular weights.'),
 'C06': ('EdgeList/EdgeListMC/EdgeListTrace', 'Sizes straddle every growth limit of the arrays.'),
 'C05': ('Netcarto/NetcartoMC/NetcartoTrace', 'Whole runs of the program built from /repo.'),
 'C07': ('Partition/BipMC/PartitionTrace', ''),
 'C08': ('Roles/PartitionMC/PartitionTrace/Groups/GroupTrace', ''),
}
TECH.update({
 'C09': ('Graph/GraphMC/GraphTrace', 'Weights in quarters, so that sums are exact.'),
 'C10': ('Graph/ReadMC/GraphTrace', 'Labels below the documented length of 100 characters.'),
 'C11': ('Graph/Bipartite/SwapMC/GraphTrace', 'Networks that admit a swap.'),
 'C12': ('Graph/GraphAllMC/GraphTrace/GroupTrace', ''),
 'C13': ('Graph/GraphAllMC/GraphTrace', 'Values compared to a few millionths; symmetric measures on loop-free networks.'),
 'C21': ('Graph/GraphMC/GraphTrace', ''),
 'C22': ('Queues/Graph/QueuesMC/GraphTrace', ''),
 'C23': ('Bipartite/BipartiteMC/GraphTrace', ''),
})
TECH.update({
 'C14': ('Groups/GroupsMC/GroupTrace', 'Networks without self-links; group labels distinct.'),
 'C15': ('Groups/GroupsMC/GroupTrace', 'The tracked modularity is read from the verbose output; at fixed temperature the frequencies are compared with the exact distribution within twelve standard deviations.'),
 'C16': ('Groups/GroupsMC/GroupTrace', 'Logarithms in millionths.'),
})
TECH.update({
 'C17': ('BlockModel/BlockModelMC/BlockTrace', 'Energies compared to 4e-4, the tracked with the recomputed one to 5e-5; judged after whole sweeps.'),
 'C18': ('BlockModel/BlockModelMC/BlockTrace', 'Networks of three to five nodes, whose distribution over groupings is computed exactly; observed frequencies may differ from it by 0.2 % and fourteen standard deviations.'),
})
TECH.update({
 'C19': ('Recommend/RecommendMC/RecommendTrace', 'Tracked with recomputed energy to a few millionths of its size; judged after whole steps.'),
 'C20': ('Recommend/RecommendMC/RecommendTrace', 'Sets of up to four nodes, whose distribution over groupings is computed exactly; sampled predictions within a few standard deviations.'),
})
TECH.update({
 'C24': ('Models/ModelsMC/ModelsTrace', 'Networks and teams small enough to list are compared with their exact probabilities: 0.2 % and fourteen standard deviations.'),
})
TECH.update({
 'C25': ('BlockModel/Recommend/BlockModelMC/RecommendMC/ScoreTrace', 'Networks of three to five nodes and few ratings, whose exact averages are computed; the programs take ten thousand groupings, scores may differ by 1.1 %.'),
 'C26': ('Graph/Groups/Bipartite/Spectrum/SpectrumMC/ProgTrace', 'Networks of up to eleven nodes, and of a thousand components; values to the digits printed.'),
 'C27': ('Spectrum/SpectrumMC/ProgTrace', 'The eigenvalues are judged by their number, order, zeros and first four to seven power sums; networks of up to fourteen nodes.'),
})
TECH.update({
 'C28': ('Layout/LayoutMC/LayoutTrace', 'Positions in millionths; forces where no pair is on the border of a box or of the reach of the charges; up to eight steps, as long as rounding stays below 150 millionths; networks of up to eight nodes.'),
})
TECH.update({
 'C29': ('Tools/ToolsMC/ToolsTrace', 'Big integers by their remainders modulo three primes; logarithms in millionths, arguments below 120.'),
 'C30': ('Groups/GroupRoles/GroupsMC/LegacyTrace', 'Networks without self-links, of up to sixteen nodes; randomized modularities are known exactly for pairs of nodes.'),
})
TECH.update({
 'C31': ('FrontEnd/FrontEndMC/FrontEndTrace', 'The graphical part of the front end is not run.'),
})
TECH['C32'] = ('Intake/IntakeMC/IntakeTrace', 'All files of up to two (three) lines of eleven shapes, put among the lines of an ordinary file.')
NA = {}
