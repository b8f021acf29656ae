from wirecommon import *
RECS = dict(ProfilingStats=dict(exec_duration_in_us='execDurationInUs', total_duration_in_us='totalDurationInUs', other_stats='otherStats'),
            PlanNodeBranchInfo=dict(is_do_branch='isDoBranch', condition_node_id='conditionNodeId'), Pair={},
            PlanNodeDescription=dict(output_var='outputVar', branch_info='branchInfo'), PlanDescription=dict(plan_node_descs='planNodeDescs', node_index_map='nodeIndexMap'),
            ExecutionResponse=dict(error_code='errorCode', latency_in_us='latencyInUs', space_name='spaceName', error_msg='errorMsg', plan_desc='planDesc'),
            AuthResponse=dict(error_code='errorCode', error_msg='errorMsg', session_id='sessionId', time_zone_offset_seconds='timeZoneOffsetSeconds', time_zone_name='timeZoneName'))
INCS = ['common/graph/Response.h', 'common/datatypes/CommonCpp2Ops.h'] + ['common/graph/%sOps.inl' % n for n in RECS]
OPS = ['Value', 'Date', 'Vertex', 'Edge', 'Path', 'Map', 'Set', 'List', 'DataSet']
def recs(): return {n: ('nebula::' + n, fields('graph.thrift', n, m)) for n, m in RECS.items()}
def mod(): return module('graph', recs(), INCS, others=('DataSet',))
class PROP(Property):
    id = 'C24'
    budget = 200
    assumptions = ['the codecs that fbthrift generates for strings, numbers, containers, and the codec of DataSet (property C23), do what their contracts say',
                   'a message in names mode gives a field the wire type of the schema; in ids mode any id and any wire type may come',
                   'reading begins in a record whose members are in any state; a failed allocation is not considered']
    def units(self):
        R = recs(); return [u for n in R for u in Codec('graph', n, R[n][0], R[n][1], mod).units()]
    search = wire_search(recs, INCS + ['common/datatypes/%sOps.inl' % x for x in OPS], ['datatypes/%s.cpp' % x for x in ('Value', 'Date', 'Vertex', 'Edge', 'Path', 'Map', 'Set', 'List')] + ['time/TimeConversion.cpp', 'graph/Response.cpp'], 'C24_search')
