#pragma once
#define PLUGINLIB_EXPORT_CLASS(a, b) namespace { b* shim_plugin_factory__() { return new a; } __attribute__((unused)) b* (*shim_plugin_factory_ptr__)() = &shim_plugin_factory__; }
