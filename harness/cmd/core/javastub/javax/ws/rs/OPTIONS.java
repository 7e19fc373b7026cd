package javax.ws.rs;
import java.lang.annotation.*;
@Retention(RetentionPolicy.RUNTIME)
@Target(ElementType.METHOD) @HttpMethod("OPTIONS")
public @interface OPTIONS {

}
