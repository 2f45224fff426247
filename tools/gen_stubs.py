import os
P='xyz.openbmc_project.'
common={
 'Association/Definitions':(['association'],'Definitions','Association.Definitions',{'associations':'Associations'},{}),
 'Association':([],'Association','Association',{'endpoints':'endpoints'},{}),
 'Control/FanPwm':(['control'],'FanPwm','Control.FanPwm',{'target':'Target'},{}),
 'Control/FanRedundancy':(['control'],'FanRedundancy','Control.FanRedundancy',{'status':'Status','collection':'Collection','allowed_failures':'AllowedFailures'},{}),
 'Control/Mode':(['control'],'Mode','Control.Mode',{'manual':'Manual','fail_safe':'FailSafe'},{}),
 'Control/ThermalMode':(['control'],'ThermalMode','Control.ThermalMode',{'current':'Current','supported':'Supported'},{}),
 'Debug/Pid/ThermalPower':(['debug','pid'],'ThermalPower','Debug.Pid.ThermalPower',{'setpoint':'Setpoint','class_type':'ClassType','leader':'Leader','input':'Input','output':'Output'},{}),
 'Debug/Pid/Zone':(['debug','pid'],'Zone','Debug.Pid.Zone',{'leader':'Leader'},{}),
 'Object/Enable':(['object'],'Enable','Object.Enable',{'enabled':'Enabled'},{}),
 'ObjectMapper':([],'ObjectMapper','ObjectMapper',{},{'get_object':'GetObject','get_sub_tree':'GetSubTree','get_ancestors':'GetAncestors','get_sub_tree_paths':'GetSubTreePaths'}),
 'Sensor/Threshold/Critical':(['sensor','threshold'],'Critical','Sensor.Threshold.Critical',{'critical_high':'CriticalHigh','critical_low':'CriticalLow','critical_alarm_high':'CriticalAlarmHigh','critical_alarm_low':'CriticalAlarmLow'},{}),
 'Sensor/Threshold/Warning':(['sensor','threshold'],'Warning','Sensor.Threshold.Warning',{'warning_high':'WarningHigh','warning_low':'WarningLow','warning_alarm_high':'WarningAlarmHigh','warning_alarm_low':'WarningAlarmLow'},{}),
 'Sensor/Value':(['sensor'],'Value','Sensor.Value',{'value':'Value','max_value':'MaxValue','min_value':'MinValue','unit':'Unit'},{}),
 'State/Decorator/Availability':(['state','decorator'],'Availability','State.Decorator.Availability',{'available':'Available'},{}),
 'State/Decorator/OperationalStatus':(['state','decorator'],'OperationalStatus','State.Decorator.OperationalStatus',{'functional':'Functional'},{}),
 'State/Host':(['state'],'Host','State.Host',{'current_host_state':'CurrentHostState','requested_host_transition':'RequestedHostTransition'},{}),
}
server={
 'Control/Mode':(['Control'],'Mode',[('bool','manual','false'),('bool','failSafe','false')]),
 'Debug/Pid/ThermalPower':(['Debug','Pid'],'ThermalPower',[('double','setpoint','0'),('std::string','classType','""'),('std::string','leader','""'),('double','input','0'),('double','output','0')]),
 'Debug/Pid/Zone':(['Debug','Pid'],'Zone',[('std::string','leader','""')]),
 'Object/Enable':(['Object'],'Enable',[('bool','enabled','true')]),
 'Sensor/Value':(['Sensor'],'Value',[('double','value','0'),('double','maxValue','0'),('double','minValue','0'),('Unit','unit','Unit::DegreesC')]),
}
def w(p,s):
    p='xyz/openbmc_project/'+p
    os.makedirs(os.path.dirname(p),exist_ok=True)
    open(p,'w').write(s)
for k,(ns,n,i,pr,me) in common.items():
    full='::'.join(['sdbusplus','common','xyz','openbmc_project']+ns)
    s='#pragma once\n#include "hv/dbus.hpp"\nnamespace %s\n{\nstruct %s\n{\n'%(full,n)
    s+='    static constexpr auto interface = "%s%s";\n'%(P,i)
    if n=='ObjectMapper':
        s+='    static constexpr auto default_service = "xyz.openbmc_project.ObjectMapper";\n    static constexpr auto instance_path = "/xyz/openbmc_project/object_mapper";\n'
    if k=='Sensor/Value':
        s+='    enum class Unit { Amperes, CFM, DegreesC, Joules, Meters, Percent, RPMS, Volts, Watts };\n'
        s+='    struct namespace_path { static constexpr auto value = "/xyz/openbmc_project/sensors"; };\n'
    s+='    struct property_names\n    {\n'+''.join('        static constexpr auto %s = "%s";\n'%x for x in pr.items())+'    };\n'
    s+='    struct method_names\n    {\n'+''.join('        static constexpr auto %s = "%s";\n'%x for x in me.items())+'    };\n'
    s+='};\n} // namespace %s\n'%full
    w(k+'/common.hpp',s)
    w(k+'/client.hpp','#pragma once\n#include "xyz/openbmc_project/%s/common.hpp"\n'%k)
for k,(ns,n,props) in server.items():
    full='::'.join(['sdbusplus','xyz','openbmc_project']+ns+['server'])
    s='#pragma once\n#include "hv/dbus.hpp"\n#include "xyz/openbmc_project/%s/common.hpp"\nnamespace %s\n{\nclass %s\n{\n  public:\n'%(k,full,n)
    cf='::'.join(['sdbusplus','common','xyz','openbmc_project']+common[k][0]+[common[k][1]])
    s+='    static constexpr auto interface = %s::interface;\n'%cf
    if n=='Value': s+='    using Unit = %s::Unit;\n'%cf
    s+='    std::string hvKey;\n    %s(sdbusplus::bus_t&, const char* p) : hvKey(p) { hv::served<%s>()[hvKey] = this; }\n'%(n,n)
    s+='    virtual ~%s()\n    {\n        auto it = hv::served<%s>().find(hvKey);\n        if (it != hv::served<%s>().end() && it->second == this)\n            hv::served<%s>().erase(it);\n    }\n'%(n,n,n,n)
    for t,p,d in props:
        a='const %s&'%t if t=='std::string' else t
        a=t
        s+='    virtual %s %s() const { return %s_; }\n'%(t,p,p)
        s+='    virtual %s %s(%s v, bool skipSignal)\n    {\n        if (!skipSignal)\n            %sSent = v;\n        return %s_ = v;\n    }\n'%(t,p,a,p,p)
        s+='    virtual %s %s(%s v) { return %s_ = %sSent = v; }\n'%(t,p,a,p,p)
        s+='    %s %sSent = %s; // as last announced by a signal\n'%(t,p,d)
    s+='  private:\n'+''.join('    %s %s_ = %s;\n'%x for x in props)
    s+='};\n} // namespace %s\n'%full
    w(k+'/server.hpp',s)
