package org.glassfish.jersey.server;
import java.util.*;
public class ResourceConfig {
    public final List<Class<?>> classes = new ArrayList<>(); public final List<Object> instances = new ArrayList<>();
    public ResourceConfig(Class<?>... c) { classes.addAll(Arrays.asList(c)); }
    public ResourceConfig register(Class<?> c) { classes.add(c); return this; }
    public ResourceConfig register(Object o) { instances.add(o); return this; }
    public ResourceConfig registerInstances(Object... o) { instances.addAll(Arrays.asList(o)); return this; }
    public void bind() { for (Object o : instances) if (o instanceof org.glassfish.hk2.utilities.binding.AbstractBinder) ((org.glassfish.hk2.utilities.binding.AbstractBinder) o).run(); }
}
